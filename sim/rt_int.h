#pragma once
#include <cstdint>
#include <cstddef>
namespace sim {
static const int MAXT = 12;
static const uint64_t MAXCH = 1 << 16, MAXSCHED = 1 << 18, MAXFAULT = 1 << 14;
static const int MAXPROBE = 200, MAXKEYS = 4096;
struct SchedE { uint64_t ev; uint32_t world, tid; };
struct FaultE { uint32_t kind, world; uint64_t n; };
struct ProbeE { char name[64]; uint64_t n; };
struct Shared {
  volatile int status; // 0 running 1 ok 2 violation 3 discarded 9 error
  int nontrivial, nprobe, nkeys;
  char kind[64];
  char msg[4096];
  char notes[16384];
  char desc[4096];
  uint64_t runseed, hash, schedhash, events, switches, races;
  int64_t vtime;
  uint64_t fired[16];
  ProbeE probes[MAXPROBE];
  uint64_t keys[MAXKEYS];
  uint64_t nch, nsched, nfault;
  uint64_t ch[MAXCH];
  SchedE sched[MAXSCHED];
  FaultE faults[MAXFAULT];
};
struct Input {
  uint64_t nch, nsched, nfault;
  uint64_t ch[MAXCH];
  SchedE sched[MAXSCHED];
  FaultE faults[MAXFAULT];
};
extern Shared *SH;
extern Input *IN;
extern bool g_replay;
extern int g_tier;
struct Team;
void rt_global_init();
void child_setup(uint64_t seed, int wall_s);
int &sut_flag();
bool world_active();
void range_access(const void *p, size_t n, bool w, const char *who);
} // namespace sim

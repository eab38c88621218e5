// Deterministic simulation runtime for LDT (API used by the scenarios).
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <exception>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

enum FaultKind {
  F_ALLOC = 0,   // operator new throws bad_alloc
  F_LAPACK,      // numerical library routine reports failure
  F_ENTROPY,     // random_device cannot be opened / read
  F_THREAD,      // thread start fails
  F_INTERRUPT,   // user interrupt arrives at a poll
  F_CLOCK,       // clock jumps
  F_CANCEL,      // cancel request
  F_SCRIPT,      // scripted failure of a candidate / callback
  F_DISK,        // disk write/read fault
  F_CRASH,       // process crash
  F_STALL,       // a thread is stalled for a long time
  F_CORRUPT,     // stored bytes damaged
  F_GC,          // the garbage collector of the embedded R runs at arbitrary allocations
  F_NKINDS
};
extern const char *fault_names[F_NKINDS];

enum Policy { P_RANDOM = 0, P_PCT, P_RR, P_SERIAL, P_STARVE, P_NPOLICIES };
enum Fill { FILL_ZERO = 0, FILL_NAN, FILL_BIG, FILL_RANDOM, FILL_ONES, FILL_NKINDS };

struct FaultRule { // in generate mode: fires at occurrences in [from, from+len) or with probability p
  int kind;
  uint64_t from = 0, len = 0;
  double p = 0;
};

struct World {
  int omp_threads = 1;
  int policy = P_RANDOM;
  double mean_slice = 500;
  int pct_depth = 3;
  uint64_t pct_len = 20000;
  uint64_t sched_seed = 1;
  int fill = FILL_ZERO;
  uint64_t fill_seed = 1;
  uint64_t entropy_seed = 1;
  int64_t clock_base_ns = 1700000000LL * 1000000000LL;
  int64_t ns_per_event = 20;
  bool race = true;           // detect races
  bool race_fatal = false;    // a race is a violation
  bool oob_fatal = false;     // an out-of-bounds access is a violation
  bool leak_fatal = false;    // a leak at world end is a violation
  uint64_t event_budget = 60000000;
  bool budget_fatal = true;
  std::vector<FaultRule> rules;
};

// ---- deterministic choice source ----
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) { next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  uint64_t u(uint64_t n) { return n <= 1 ? 0 : next() % n; }
  double real() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double normal();
};

// all configuration/data choices of a run go through these (recorded, replayable)
uint64_t ch(uint64_t n);            // 0..n-1
int chi(int lo, int hi);            // inclusive
bool chance(double p);
double chreal();                    // [0,1) with 2^20 steps
uint64_t chseed();                  // sub-seed (full width, kept under 2^31)
template <class T> const T &pick(const std::vector<T> &v) { return v[ch(v.size())]; }

World gen_world(int max_threads);   // draws schedule policy, threads, fill, clock, entropy

void begin(const World &w);
struct EndInfo {
  uint64_t events, switches, allocs, live_blocks, live_bytes, races, oob;
  int64_t vtime_ns;
  std::string first_race, first_oob, first_leak;
};
EndInfo end(bool expect_clean_heap = true);

struct Outcome {
  bool ok = true;
  std::string kind; // "", "std", "string", "cstr", "unknown", "bad_alloc"
  std::string what;
};
Outcome sut(const std::function<void()> &f); // runs f as system under test (main sim thread)
// runs several bodies as concurrent sim threads (main waits), each is SUT code
std::vector<Outcome> sut_threads(const std::vector<std::function<void()>> &fs);

struct Harness { // leaves SUT mode in this scope (scripted callbacks)
  int saved;
  Harness();
  ~Harness();
};
struct Sut { // back into SUT mode in a harness scope
  int saved;
  Sut();
  ~Sut();
};
bool in_sut();
void yield_point();                 // explicit scheduling point
uint64_t events_now();
int cur_tid();
int live_threads();                 // threads of the system under test that have not ended
int64_t vtime_now();

bool fault(int kind);               // decides (and records) whether a fault fires here
void fault_mark(int kind);           // counts a fault the scenario injected itself (fixed by its choices)
uint64_t fault_fired(int kind);     // fired so far in this run (all worlds)
uint64_t fault_seen(int kind);      // opportunities so far in this world
void add_rule(const FaultRule &r);
void clear_rules();                   // no further faults in this world

void protect(const void *p, size_t n, const char *name); // writes by SUT are violations
void unprotect_all();
void benign(const void *p, size_t n); // excluded from race detection
void benign_stack_of(const void *p, size_t n);
void *arena_new(size_t bytes, int fill, uint64_t fill_seed, const char *name); // bounds-checked buffer
void arena_free(void *p);
void fill_bytes(void *p, size_t n, int fill, uint64_t seed);
// last-access watch: set cancel at event n in this world
void at_event(uint64_t n, std::function<void()> f);

[[noreturn]] void violate(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void discard(const char *why); // run is not applicable (does not count as non-trivial)
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void probe(const char *name, uint64_t n = 1); // coverage counter
void observe(uint64_t h);           // goes into the run hash
void observe_d(double d);
void observe_s(const std::string &s);
void nontrivial();                  // this run exercised the property
void state_key(uint64_t h);         // distinct-state measure
void describe(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // sample text
void set_prefix(const std::string &s); // context for messages

const char *last_lapack();            // the library routine whose failure was injected last
const char *failed_lapack();          // all of them since the last reset
void failed_lapack_reset();
bool is_replay();
int tier(); // 0 quick 1 thorough

typedef void (*ScenarioFn)();
struct Register {
  Register(const char *prop, const char *name, ScenarioFn fn, double weight = 1);
};
} // namespace sim
#define SCENARIO(prop, name, weight)                                           \
  static void name();                                                         \
  static sim::Register reg_##name(prop, #name, name, weight);                  \
  static void name()

// Deterministic simulation runtime: memory-access events, seeded scheduler, race
// detection, bounds-checked arena, fault injection. Compiled WITHOUT instrumentation.
#include "rt.h"
#include "rt_int.h"
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <random>
#include <stdexcept>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <bits/atomic_futex.h>
#include <set>

extern "C" char __libc_single_threaded;

namespace sim {
const char *fault_names[F_NKINDS] = {"alloc_fail", "lapack_fail", "entropy_fail", "thread_start_fail", "interrupt",
                                     "clock_jump", "cancel", "scripted_failure", "disk_fault", "crash", "stall", "corruption", "collector"};
Shared *SH = nullptr;
Input *IN = nullptr;
int g_tier = 0;
bool g_replay = false;
static Rng g_chrng(1), g_schrng(1), g_faultrng(1);

double Rng::normal() {
  double a = real(), b = real();
  if (a < 1e-300) a = 1e-300;
  return sqrt(-2 * log(a)) * cos(6.283185307179586 * b);
}

// ------------------------------------------------------------------ hash
static inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 32;
  return h;
}
void observe(uint64_t h) { SH->hash = mix(SH->hash, h); }
void observe_d(double d) {
  uint64_t u;
  if (d != d) u = 0x7ff8dead;
  else memcpy(&u, &d, 8);
  observe(u);
}
void observe_s(const std::string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (char c : s) h = (h ^ (unsigned char)c) * 1099511628211ULL;
  observe(h);
}

// ------------------------------------------------------------------ choices
static thread_local int tl_sut = 0;
static uint64_t g_chpos = 0;
uint64_t ch(uint64_t n) {
  if (n <= 1) return 0;
  uint64_t v;
  if (g_replay) {
    v = g_chpos < IN->nch ? IN->ch[g_chpos] : 0;
    if (v >= n) v = n - 1;
  } else
    v = g_chrng.u(n);
  g_chpos++;
  if (SH->nch < MAXCH) SH->ch[SH->nch++] = v;
  return v;
}
int chi(int lo, int hi) { return lo + (int)ch((uint64_t)(hi - lo + 1)); }
bool chance(double p) { return (double)ch(1 << 20) >= (1.0 - p) * (1 << 20); }
double chreal() { return (double)ch(1 << 20) / (1 << 20); }
uint64_t chseed() { return ch(0x7fffffff); }
bool is_replay() { return g_replay; }
int tier() { return g_tier; }

// ------------------------------------------------------------------ world state
World W;
static int g_world = -1;
static bool g_active = false;
static uint64_t g_ev = 0, g_stop = ~0ULL, g_preempt_at = ~0ULL, g_budget_at = ~0ULL;
static int64_t g_vt = 0;
static uint64_t g_switches = 0;
static std::vector<std::pair<uint64_t, std::function<void()>>> g_hooks;
static uint64_t g_sched_in_pos = 0;
static std::string g_prefix;
static uint64_t g_occ[F_NKINDS];
static Rng g_entropy(1);
static Rng g_fill(1);

struct Thread {
  int state = 0; // 0 free 1 runnable 2 blocked 3 sleeping/blocked-with-timeout 4 finished(unjoined)
  int go = 0;
  const void *key = nullptr;
  int64_t wake = -1;
  bool timedout = false;
  bool detached = false;
  uint32_t vc[MAXT];
  pthread_t real;
  bool has_real = false;
  double prio = 0;
  uint64_t stalled_until = 0;
  std::function<void()> body;
  void *(*fn)(void *) = nullptr;
  void *arg = nullptr;
  void *ret = nullptr;
  Team *team = nullptr;
  int omp_id = 0;
  uintptr_t slo = 0, shi = 0;
};
static Thread T[MAXT];
static int g_cur = 0;
static int g_live = 1; // threads not yet reaped
static thread_local int tl_tid = 0;
static thread_local Team *tl_team = nullptr;
static thread_local int tl_omp_id = 0;
static thread_local uint64_t tl_ws = 0; // workshare sequence

bool in_sut() { return tl_sut > 0; }
uint64_t events_now() { return g_ev; }
int cur_tid() { return tl_tid; }
int live_threads();
int64_t vtime_now() { return g_vt; }
Harness::Harness() : saved(tl_sut) { tl_sut = 0; }
Harness::~Harness() { tl_sut = saved; }
Sut::Sut() : saved(tl_sut) { tl_sut = 1; }
Sut::~Sut() { tl_sut = saved; }

static void finish(int status) {
  SH->events += g_active ? g_ev : 0;
  SH->vtime += g_active ? g_vt : 0;
  SH->switches += g_active ? g_switches : 0;
  SH->status = status;
  _exit(0);
}
void set_prefix(const std::string &s) {
  Harness h;
  g_prefix = s;
}
void violate(const char *kind, const char *fmt, ...) {
  tl_sut = 0;
  snprintf(SH->kind, sizeof SH->kind, "%s", kind);
  int o = 0;
  if (!g_prefix.empty()) o = snprintf(SH->msg, sizeof SH->msg, "[%s] ", g_prefix.c_str());
  if (o >= (int)sizeof SH->msg) o = sizeof SH->msg - 1;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(SH->msg + o, sizeof SH->msg - o, fmt, ap);
  va_end(ap);
  finish(2);
  for (;;) _exit(0);
}
void discard(const char *why) {
  snprintf(SH->kind, sizeof SH->kind, "%s", why);
  finish(3);
  for (;;) _exit(0);
}
void note(const char *fmt, ...) {
  Harness hh;
  size_t l = strlen(SH->notes);
  if (l + 2 >= sizeof SH->notes) return;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(SH->notes + l, sizeof SH->notes - l - 1, fmt, ap);
  va_end(ap);
  l = strlen(SH->notes);
  if (l + 1 < sizeof SH->notes) SH->notes[l] = '\n', SH->notes[l + 1] = 0;
}
void describe(const char *fmt, ...) {
  Harness hh;
  size_t l = strlen(SH->desc);
  if (l + 2 >= sizeof SH->desc) return;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(SH->desc + l, sizeof SH->desc - l - 1, fmt, ap);
  va_end(ap);
}
void probe(const char *name, uint64_t n) {
  for (int i = 0; i < SH->nprobe; i++)
    if (!strcmp(SH->probes[i].name, name)) {
      SH->probes[i].n += n;
      return;
    }
  if (SH->nprobe < MAXPROBE) {
    snprintf(SH->probes[SH->nprobe].name, sizeof SH->probes[0].name, "%s", name);
    SH->probes[SH->nprobe++].n = n;
  }
}
void nontrivial() { SH->nontrivial = 1; }
void state_key(uint64_t h) {
  if (SH->nkeys < MAXKEYS) SH->keys[SH->nkeys++] = h;
}

// ------------------------------------------------------------------ arena
static char *const A0 = (char *)0x200000000000ULL;
static const size_t ASZ = 1ULL << 30;
static uint8_t *const S0 = (uint8_t *)0x210000000000ULL; // accessible bytes per granule
struct Cell {
  uint32_t clock;
  uint8_t tid, mask, w, used;
};
struct Gran {
  Cell c[6];
};
static Gran *const R0 = (Gran *)0x220000000000ULL;
struct HEnt {
  uintptr_t key;
  Gran g;
};
static HEnt *const H0 = (HEnt *)0x230000000000ULL;
static const size_t HSZ = 1 << 20;
static size_t h_used = 0;
static const int HPROBE = 512;
// neighbours stay together: a page of the table for 512 bytes of memory
static inline size_t hslot(uintptr_t ga) { return (((ga >> 9) * 0x9E3779B97F4A7C15ULL >> 50) << 6) + ((ga >> 3) & 63); }
struct BHdr {
  uint64_t magic;
  uint64_t size;
  BHdr *prev, *next;
  uint32_t world;
  uint32_t seq;
  const char *name;
  uint64_t ord;
  uint64_t total;
};
static_assert(sizeof(BHdr) == 64, "hdr");
static const uint64_t MAGIC = 0xA110C8EDA110C8EDULL, FREED = 0xF4EEDF4EEDULL;
static size_t a_top = 0;
static BHdr *live_head = nullptr;
static uint64_t live_n = 0, live_b = 0, alloc_seq = 0;
static std::vector<BHdr *> *freel[64];

void rt_global_init() {
  auto m = [](void *p, size_t n) {
    void *r = mmap(p, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (r != p) {
      fprintf(stderr, "mmap failed\n");
      _exit(9);
    }
  };
  m(A0, ASZ);
  m(S0, ASZ / 8);
  m(R0, ASZ / 8 * sizeof(Gran));
  m(H0, HSZ * sizeof(HEnt));
}
static inline bool in_arena(const void *p) { return (uintptr_t)p - (uintptr_t)A0 < ASZ; }
static void set_acc(char *p, size_t n, bool on) { // p 8-aligned
  size_t g = (p - A0) >> 3;
  size_t full = n >> 3;
  memset(S0 + g, on ? 8 : 0, full);
  if (n & 7) S0[g + full] = on ? (uint8_t)(n & 7) : 0;
}
static void clear_race(char *p, size_t n) {
  size_t g = (p - A0) >> 3, e = (p + n + 7 - A0) >> 3;
  memset((void *)(R0 + g), 0, (e - g) * sizeof(Gran));
}
void fill_bytes(void *p, size_t n, int fill, uint64_t seed) {
  double *d = (double *)p;
  size_t k = n / 8;
  Rng r(seed);
  switch (fill) {
  case FILL_ZERO: memset(p, 0, n); return;
  case FILL_NAN:
    for (size_t i = 0; i < k; i++) d[i] = NAN;
    break;
  case FILL_BIG:
    for (size_t i = 0; i < k; i++) d[i] = 1e17 * (double)(1 + (i + seed) % 7);
    break;
  case FILL_ONES: memset(p, 0xFF, n); return;
  default:
    for (size_t i = 0; i < k; i++) d[i] = r.real() * 20 - 10;
  }
  memset((char *)p + k * 8, 0x7d, n & 7);
}
static bool g_junk_fill = true;
static void *a_alloc(size_t n, const char *name, size_t align = 16) {
  size_t pay = (n + 15) & ~(size_t)15;
  size_t total = sizeof(BHdr) + pay + 64;
  if (align > 16) total += align;
  total = (total + 63) & ~(size_t)63;
  BHdr *b = nullptr;
  int cls = 63 - __builtin_clzll(total | 1);
  if (a_top > ASZ / 2 && align <= 16) { // reuse only when much has been used
    for (int c = cls; c < 64 && !b; c++)
      if (freel[c] && !freel[c]->empty()) {
        for (size_t i = freel[c]->size(); i-- > 0 && i + 16 > freel[c]->size();) {
          BHdr *q = (*freel[c])[i];
          if (q->total >= total && q->total <= total * 4) {
            b = q;
            freel[c]->erase(freel[c]->begin() + i);
            total = q->total;
            break;
          }
        }
      }
  }
  if (!b) {
    if (a_top + total > ASZ) return nullptr;
    b = (BHdr *)(A0 + a_top);
    a_top += total;
  }
  char *p = (char *)(b + 1);
  if (align > 16) {
    p = (char *)(((uintptr_t)p + align - 1) & ~(align - 1));
    if (p != (char *)(b + 1)) {
      BHdr *nb = (BHdr *)p - 1;
      total -= (char *)nb - (char *)b;
      b = nb;
    }
  }
  b->magic = MAGIC;
  b->size = n;
  b->world = (uint32_t)g_world;
  b->name = name;
  b->ord = ++alloc_seq;
  b->total = total;
  b->prev = nullptr;
  b->next = live_head;
  if (live_head) live_head->prev = b;
  live_head = b;
  live_n++;
  live_b += n;
  clear_race(p, n);
  set_acc(p, n, true);
  if (n) {
    if (n > (1u << 20)) { // keep huge blocks cheap
      fill_bytes(p, n, W.fill == FILL_ZERO ? FILL_ZERO : FILL_NAN, 0);
    } else
      fill_bytes(p, n, W.fill, g_fill.next());
  }
  return p;
}
static void access(uintptr_t a, size_t n, bool w);
static void a_free(void *p) {
  BHdr *b = (BHdr *)p - 1;
  if (b->magic != MAGIC) violate(b->magic == FREED ? "double-free" : "bad-free", "free of %p (block magic %llx)", (void *)((char *)p - (size_t)A0), (unsigned long long)b->magic);
  if (tl_sut && g_live > 1) {
    size_t n = b->size > 512 ? 512 : b->size;
    for (size_t i = 0; i + 8 <= n; i += 8) access((uintptr_t)p + i, 8, true);
  }
  b->magic = FREED;
  if (b->prev) b->prev->next = b->next;
  else live_head = b->next;
  if (b->next) b->next->prev = b->prev;
  live_n--;
  live_b -= b->size;
  set_acc((char *)p, b->size, false);
  fill_bytes(p, b->size > 4096 ? 4096 : b->size, FILL_ONES, 0);
  if (a_top > ASZ / 4) {
    int cls = 63 - __builtin_clzll(b->total | 1);
    if (!freel[cls]) freel[cls] = new (std::nothrow) std::vector<BHdr *>();
    int sv = tl_sut;
    tl_sut = 0;
    freel[cls]->push_back(b);
    tl_sut = sv;
  }
}
void *arena_new(size_t bytes, int fill, uint64_t seed, const char *name) {
  static std::set<std::string> names; // a block keeps the pointer
  {
    Harness h;
    name = names.insert(name ? name : "buffer").first->c_str();
  }
  int f = W.fill;
  W.fill = FILL_ZERO;
  void *p = a_alloc(bytes, name ? name : "buffer");
  W.fill = f;
  fill_bytes(p, bytes, fill, seed);
  return p;
}
void arena_free(void *p) {
  Harness h;
  if (p) a_free(p);
}

// ------------------------------------------------------------------ events
struct Range {
  uintptr_t a, b;
  const char *name;
};
static std::vector<Range> g_prot, g_benign;
static uintptr_t prot_lo = ~0ULL, prot_hi = 0;
static uint64_t g_races = 0, g_oob = 0;
static char g_first_race[512], g_first_oob[512];

void protect(const void *p, size_t n, const char *name) {
  if (!n) return;
  Harness h;
  g_prot.push_back({(uintptr_t)p, (uintptr_t)p + n, name});
  prot_lo = std::min(prot_lo, (uintptr_t)p);
  prot_hi = std::max(prot_hi, (uintptr_t)p + n);
}
void unprotect_all() {
  g_prot.clear();
  prot_lo = ~0ULL;
  prot_hi = 0;
}
void benign(const void *p, size_t n) {
  Harness h;
  g_benign.push_back({(uintptr_t)p, (uintptr_t)p + n, ""});
}
static void sym_of(void *pc, char *out, size_t n) {
  Dl_info di;
  if (dladdr(pc, &di) && di.dli_sname)
    snprintf(out, n, "%s", di.dli_sname);
  else if (dladdr(pc, &di) && di.dli_fbase)
    snprintf(out, n, "+0x%lx", (unsigned long)((char *)pc - (char *)di.dli_fbase));
  else
    snprintf(out, n, "?");
}
static void report_oob(uintptr_t a, size_t n, bool w, void *pc) {
  g_oob++;
  if (g_first_oob[0] && !W.oob_fatal) return;
  char s[256];
  sym_of(pc, s, sizeof s);
  // find the block
  const char *bn = "?";
  long off = 0;
  unsigned long bs = 0;
  uintptr_t g = a & ~7ULL;
  for (int i = 0; i < 1 << 16 && g > (uintptr_t)A0; i++, g -= 8) {
    BHdr *b = (BHdr *)(g & ~15ULL);
    if (((uintptr_t)b & 15) == 0 && (b->magic == MAGIC || b->magic == FREED)) {
      bn = b->magic == FREED ? "freed block" : (b->name ? b->name : "heap block");
      off = (long)(a - (uintptr_t)(b + 1));
      bs = b->size;
      break;
    }
  }
  snprintf(g_first_oob, sizeof g_first_oob, "%s of %zu bytes at offset %ld of %s of size %lu in %s", w ? "write" : "read", n, off, bn, bs, s);
  if (W.oob_fatal) violate("out-of-bounds", "%s", g_first_oob);
}
static inline bool chk(uintptr_t a, size_t n) {
  size_t o = a - (uintptr_t)A0;
  size_t g = o >> 3;
  size_t b = o & 7;
  if (b + n <= 8) return S0[g] >= b + n;
  if (S0[g] != 8) return false;
  n -= 8 - b;
  g++;
  while (n >= 8) {
    if (S0[g] != 8) return false;
    g++;
    n -= 8;
  }
  return n == 0 || S0[g] >= n;
}

static bool is_benign(uintptr_t a) {
  for (auto &r : g_benign)
    if (a >= r.a && a < r.b) return true;
  return false;
}
static struct { uintptr_t a, b; } g_exc[512]; // memory that held an exception object (its allocator is not simulated)
static unsigned g_nexc = 0;
static void report_race(uintptr_t a, bool w, const Cell &c, void *pc) {
  if (is_benign(a)) return;
  for (unsigned i = 0; i < g_nexc && i < 512; i++)
    if (a + 8 > g_exc[i].a && a < g_exc[i].b) return;
  g_races++;
  if (g_first_race[0]) return;
  char s[256];
  sym_of(pc, s, sizeof s);
  const char *where = in_arena((void *)a) ? "heap" : "static-or-stack";
  BHdr *b = nullptr;
  if (in_arena((void *)a)) {
    uintptr_t g = a & ~15ULL;
    for (int i = 0; i < 1 << 16 && g >= (uintptr_t)A0; i++, g -= 16)
      if (((BHdr *)g)->magic == MAGIC) {
        b = (BHdr *)g;
        break;
      }
  } else {
    Dl_info di;
    if (dladdr((void *)a, &di) && di.dli_sname) where = di.dli_sname;
  }
  snprintf(g_first_race, sizeof g_first_race, "unsynchronised %s by thread %d after %s by thread %d (%s%s%s, offset %ld) in %s", w ? "write" : "read",
           tl_tid, c.w ? "write" : "read", (int)c.tid, where, b && b->name ? " " : "", b && b->name ? b->name : "", b ? (long)(a - (uintptr_t)(b + 1)) : 0L, s);
  if (W.race_fatal) violate("data-race", "%s", g_first_race);
}
static void race_gran(uintptr_t ga, uint8_t mask, bool w, void *pc) {
  Gran *g;
  if (in_arena((void *)ga))
    g = R0 + ((ga - (uintptr_t)A0) >> 3);
  else {
    size_t h = hslot(ga);
    for (int i = 0; i < HPROBE; i++) {
      HEnt *e = H0 + ((h + i) & (HSZ - 1));
      if (e->key == ga) {
        g = &e->g;
        goto found;
      }
      if (!e->key) {
        if (h_used > HSZ * 3 / 4) return;
        e->key = ga;
        h_used++;
        g = &e->g;
        goto found;
      }
    }
    return;
  }
found:
  uint32_t *vc = T[tl_tid].vc;
  uint32_t my = vc[tl_tid];
  int slot = -1, freeslot = -1, old = -1;
  for (int i = 0; i < 6; i++) {
    Cell &c = g->c[i];
    if (!c.used) {
      if (freeslot < 0) freeslot = i;
      continue;
    }
    if (c.tid == tl_tid) {
      if (c.w == w && (c.clock == my || (c.mask & ~mask) == 0)) {
        if (slot < 0) slot = i;
      }
      continue;
    }
    bool hb = c.clock <= vc[c.tid];
    if (hb) {
      if (old < 0) old = i;
      continue;
    }
    if ((c.mask & mask) && (w || c.w)) report_race(ga, w, c, pc);
  }
  if (slot >= 0) {
    Cell &c = g->c[slot];
    if (c.clock == my) c.mask |= mask;
    else c.clock = my, c.mask = mask;
    return;
  }
  int k = freeslot >= 0 ? freeslot : old >= 0 ? old : (int)(g_ev % 6);
  g->c[k] = Cell{my, (uint8_t)tl_tid, mask, (uint8_t)w, 1};
}

static void forget_race(uintptr_t a, size_t n) { // memory outside the arena that got a new owner
  for (uintptr_t ga = a & ~7ULL; ga < a + n; ga += 8) {
    size_t h = hslot(ga);
    for (int i = 0; i < HPROBE; i++) {
      HEnt *e = H0 + ((h + i) & (HSZ - 1));
      if (!e->key) break;
      if (e->key == ga) {
        memset(&e->g, 0, sizeof e->g);
        break;
      }
    }
  }
}
static void slow_event();
__attribute__((noinline)) static void access2(uintptr_t a, size_t n, bool w, void *pc) {
  // in SUT mode
  if (in_arena((void *)a)) {
    if (!chk(a, n)) {
      report_oob(a, n, w, pc);
      return;
    }
  }
  if (w && a < prot_hi && a + n > prot_lo)
    for (auto &r : g_prot)
      if (a < r.b && a + n > r.a) {
        char s[256];
        sym_of(pc, s, sizeof s);
        violate("input-modified", "write to %s (offset %ld) by %s", r.name, (long)(a - r.a), s);
      }
  if (g_live > 1 && W.race) {
    uintptr_t e = a + n;
    for (uintptr_t g = a & ~7ULL; g < e; g += 8) {
      unsigned lo = g < a ? (unsigned)(a - g) : 0, hi = e - g >= 8 ? 8 : (unsigned)(e - g);
      uint8_t mask = (uint8_t)((0xFFu << lo) & (0xFFu >> (8 - hi)));
      race_gran(g, mask, w, pc);
    }
  }
}
static inline void tick() {
  g_vt += W.ns_per_event;
  if (++g_ev >= g_stop) slow_event();
}
static void access(uintptr_t a, size_t n, bool w) { access2(a, n, w, __builtin_return_address(0)); }

// range access used by memcpy & numerical library wraps
void range_access(const void *p, size_t n, bool w, const char *who) {
  if (!tl_sut || !g_active || !n || !p) return;
  uintptr_t a = (uintptr_t)p;
  if (in_arena(p) && !chk(a, n)) {
    g_oob++;
    if (W.oob_fatal || !g_first_oob[0]) {
      char nm[64];
      snprintf(nm, sizeof nm, "%s", who);
      report_oob(a, n, w, __builtin_return_address(0));
      size_t l = strlen(g_first_oob);
      snprintf(g_first_oob + l, sizeof g_first_oob - l, " [%s]", nm);
    }
  } else
    access2(a, n, w, __builtin_return_address(0));
  tick();
}

// ------------------------------------------------------------------ scheduler
static void fwait(int *p) {
  while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(p, 0, __ATOMIC_RELEASE);
}
static void fwake(int *p) {
  __atomic_store_n(p, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
static void recompute_stop() {
  g_stop = std::min(g_preempt_at, g_budget_at);
  for (auto &h : g_hooks) g_stop = std::min(g_stop, h.first);
  if (g_replay && g_sched_in_pos < IN->nsched && IN->sched[g_sched_in_pos].world == (uint32_t)g_world) g_stop = std::min(g_stop, IN->sched[g_sched_in_pos].ev);
}
static void draw_slice() {
  if (g_replay || SH->nsched >= MAXSCHED) {
    g_preempt_at = ~0ULL;
    recompute_stop();
    return;
  }
  double m = W.mean_slice;
  uint64_t n;
  switch (W.policy) {
  case P_RR: n = (uint64_t)m + 1; break;
  case P_SERIAL: n = ~0ULL >> 2; break;
  case P_PCT: n = 1 + (uint64_t)(g_schrng.real() * 2 * (double)W.pct_len / (W.pct_depth + 1)); break;
  default: {
    double u = g_schrng.real();
    n = 1 + (uint64_t)(-m * log(1 - u));
  }
  }
  g_preempt_at = g_ev + n;
  recompute_stop();
}
static bool wakeable(int i) { return T[i].state == 1 || (T[i].state == 3 && T[i].wake <= g_vt); }
// choose the next thread; cur may or may not be runnable
static int choose(bool must_leave) {
  int c[MAXT], n = 0;
  for (int i = 0; i < MAXT; i++)
    if (wakeable(i)) c[n++] = i;
  if (n == 0) {
    int64_t best = INT64_MAX;
    int b = -1;
    for (int i = 0; i < MAXT; i++)
      if (T[i].state == 3 && T[i].wake < best) best = T[i].wake, b = i;
    if (b < 0) {
      std::string s;
      violate("deadlock", "all simulated threads are blocked (event %llu)", (unsigned long long)g_ev);
    }
    if (best > g_vt) g_vt = best;
    return b;
  }
  if (n == 1) return c[0];
  int r;
  if (g_replay) {
    while (g_sched_in_pos < IN->nsched && (IN->sched[g_sched_in_pos].world < (uint32_t)g_world || (IN->sched[g_sched_in_pos].world == (uint32_t)g_world && IN->sched[g_sched_in_pos].ev < g_ev))) g_sched_in_pos++;
    r = -1;
    if (g_sched_in_pos < IN->nsched && IN->sched[g_sched_in_pos].world == (uint32_t)g_world && IN->sched[g_sched_in_pos].ev == g_ev) {
      int want = IN->sched[g_sched_in_pos].tid;
      g_sched_in_pos++;
      for (int i = 0; i < n; i++)
        if (c[i] == want) r = want;
    }
    if (r < 0) { // default: stay, else lowest
      r = c[0];
      for (int i = 0; i < n; i++)
        if (c[i] == g_cur && !must_leave) r = g_cur;
    }
    return r;
  }
  switch (W.policy) {
  case P_PCT: {
    if (!must_leave) T[g_cur].prio = -(double)g_ev; // change point: lowest priority
    r = c[0];
    for (int i = 0; i < n; i++)
      if (T[c[i]].prio > T[r].prio) r = c[i];
    break;
  }
  case P_RR: {
    r = -1;
    for (int k = 1; k <= MAXT && r < 0; k++)
      for (int i = 0; i < n; i++)
        if (c[i] == (g_cur + k) % MAXT) r = c[i];
    break;
  }
  case P_STARVE: { // one victim is picked only rarely
    int victim = (int)(W.sched_seed % MAXT);
    r = c[g_schrng.u(n)];
    if ((r & 7) == (victim & 7) && g_schrng.u(50) != 0) r = c[g_schrng.u(n)];
    break;
  }
  default: r = c[g_schrng.u(n)];
  }
  if (g_schrng.u(4000) == 0) { // stall: a candidate loses its turn for long
    int v = c[g_schrng.u(n)];
    T[v].stalled_until = g_ev + 20000 + g_schrng.u(100000);
    SH->fired[F_STALL]++;
  }
  if (T[r].stalled_until > g_ev)
    for (int i = 0; i < n; i++)
      if (T[c[i]].stalled_until <= g_ev) {
        r = c[i];
        break;
      }
  if (SH->nsched < MAXSCHED && (r != g_cur || must_leave)) {
    SH->sched[SH->nsched++] = {g_ev, (uint32_t)g_world, (uint32_t)r};
  }
  return r;
}
static void switch_to(int t) {
  if (T[t].state == 3) {
    T[t].state = 1;
    T[t].timedout = true;
  }
  if (t == g_cur) return;
  int me = g_cur;
  g_cur = t;
  g_switches++;
  SH->hash = mix(SH->hash, g_ev * 64 + t);
  SH->schedhash = mix(SH->schedhash, g_ev * 64 + t);
  fwake(&T[t].go);
  if (T[me].state != 4) fwait(&T[me].go);
}
static void slow_event() {
  int sv = tl_sut;
  tl_sut = 0;
  if (g_ev >= g_budget_at) {
    if (W.budget_fatal) violate("no-progress", "event budget of %llu exceeded", (unsigned long long)W.event_budget);
    discard("event budget");
  }
  for (size_t i = 0; i < g_hooks.size();) {
    if (g_hooks[i].first <= g_ev) {
      auto f = std::move(g_hooks[i].second);
      g_hooks.erase(g_hooks.begin() + i);
      f();
    } else
      i++;
  }
  if (g_replay) {
    while (g_sched_in_pos < IN->nsched && (IN->sched[g_sched_in_pos].world < (uint32_t)g_world || (IN->sched[g_sched_in_pos].world == (uint32_t)g_world && IN->sched[g_sched_in_pos].ev < g_ev))) g_sched_in_pos++;
    if (g_sched_in_pos < IN->nsched && IN->sched[g_sched_in_pos].world == (uint32_t)g_world && IN->sched[g_sched_in_pos].ev == g_ev) {
      int t = choose(false);
      switch_to(t);
    }
    recompute_stop();
  } else if (g_ev >= g_preempt_at) {
    int t = choose(false);
    draw_slice();
    switch_to(t);
  } else
    recompute_stop();
  tl_sut = sv;
}
void at_event(uint64_t n, std::function<void()> f) {
  Harness h;
  g_hooks.push_back({g_ev + n, f});
  recompute_stop();
}
void yield_point() {
  if (!g_active) return;
  int sv = tl_sut;
  tl_sut = 0;
  g_vt += W.ns_per_event;
  ++g_ev;
  if (g_ev >= g_stop) slow_event();
  else if (!g_replay && g_live > 1 && SH->nsched < MAXSCHED && g_schrng.u(3) == 0) {
    int t = choose(false);
    draw_slice();
    switch_to(t);
  }
  tl_sut = sv;
}
// block current thread on key; returns true when woken, false when timed out
static bool block_on(const void *key, int64_t wake) {
  int sv = tl_sut;
  tl_sut = 0;
  ++g_ev;
  Thread &t = T[g_cur];
  t.key = key;
  t.wake = wake;
  t.timedout = false;
  t.state = wake >= 0 ? 3 : 2;
  int n = choose(true);
  draw_slice();
  if (n == g_cur) {
    T[n].state = 1;
    T[n].timedout = true;
  } else
    switch_to(n);
  tl_sut = sv;
  bool to = t.timedout;
  t.timedout = false;
  t.key = nullptr;
  return !to;
}
static int wake_key(const void *key, int max) {
  int c = 0;
  for (int i = 0; i < MAXT && c < max; i++)
    if ((T[i].state == 2 || T[i].state == 3) && T[i].key == key && key) {
      T[i].state = 1;
      T[i].key = nullptr;
      c++;
    }
  return c;
}
// happens-before on sync objects
static std::map<const void *, std::vector<uint32_t>> g_sync;
static void hb_acquire(const void *k) {
  if (g_live <= 1) return;
  int sv = tl_sut;
  tl_sut = 0;
  auto it = g_sync.find(k);
  if (it != g_sync.end())
    for (int i = 0; i < MAXT; i++) T[tl_tid].vc[i] = std::max(T[tl_tid].vc[i], it->second[i]);
  tl_sut = sv;
}
static void hb_release(const void *k) {
  if (g_live <= 1) return;
  int sv = tl_sut;
  tl_sut = 0;
  auto &v = g_sync[k];
  if (v.empty()) v.assign(MAXT, 0);
  for (int i = 0; i < MAXT; i++) v[i] = std::max(v[i], T[tl_tid].vc[i]);
  T[tl_tid].vc[tl_tid]++;
  tl_sut = sv;
}
// ---- threads
static void *thread_main(void *p) {
  int id = (int)(intptr_t)p;
  tl_tid = id;
  fwait(&T[id].go);
  Thread &t = T[id];
  tl_team = t.team;
  tl_omp_id = t.omp_id;
  tl_ws = 0;
  tl_sut = 1;
  if (t.fn) t.ret = t.fn(t.arg);
  else t.body();
  tl_sut = 0;
  // finished
  ++g_ev;
  for (int i = 0; i < MAXT; i++)
    if ((T[i].state == 2 || T[i].state == 3) && T[i].key == (void *)&t) {
      T[i].state = 1;
      T[i].key = nullptr;
    }
  t.state = 4;
  if (t.detached) {
    t.state = 0;
    g_live--;
    t.state = 4; // keep until the end of the world (slot not reused)
  }
  int n = choose(true);
  draw_slice();
  int me = g_cur;
  (void)me;
  if (T[n].state == 3) {
    T[n].state = 1;
    T[n].timedout = true;
  }
  g_cur = n;
  g_switches++;
  SH->hash = mix(SH->hash, g_ev * 64 + n);
  SH->schedhash = mix(SH->schedhash, g_ev * 64 + n);
  fwake(&T[n].go);
  return t.ret;
}
typedef int (*pc_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static pc_t real_create() {
  static pc_t f = (pc_t)dlsym(RTLD_NEXT, "pthread_create");
  return f;
}
static int spawn(void *(*fn)(void *), void *arg, std::function<void()> body, Team *team, int omp_id) {
  int sv = tl_sut;
  tl_sut = 0;
  int id = -1;
  for (int i = 1; i < MAXT; i++)
    if (T[i].state == 0) {
      id = i;
      break;
    }
  if (id < 0) {
    tl_sut = sv;
    return -1;
  }
  Thread &t = T[id];
  uint32_t keep = t.vc[id];
  for (int i = 0; i < MAXT; i++) t.vc[i] = T[tl_tid].vc[i];
  t.vc[id] = std::max(keep, t.vc[id]) + 1;
  T[tl_tid].vc[tl_tid]++;
  t.fn = fn;
  t.arg = arg;
  t.body = std::move(body);
  t.team = team;
  t.omp_id = omp_id;
  t.go = 0;
  t.key = nullptr;
  t.detached = false;
  t.stalled_until = 0;
  t.prio = g_schrng.real();
  t.state = 1;
  static pthread_attr_t at;
  static bool ati = false;
  if (!ati) {
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 4 << 20);
    ati = true;
  }
  if (real_create()(&t.real, &at, thread_main, (void *)(intptr_t)id) != 0) {
    fprintf(stderr, "real pthread_create failed\n");
    SH->status = 9;
    _exit(9);
  }
  g_live++;
  tl_sut = sv;
  ++g_ev;
  if (tl_sut) yield_point();
  else if (!g_replay && g_preempt_at == ~0ULL) draw_slice();
  if (g_preempt_at == ~0ULL) draw_slice();
  return id;
}
static void reap(int id) {
  int sv = tl_sut;
  tl_sut = 0;
  Thread &t = T[id];
  while (t.state != 4) block_on(&t, -1);
  for (int i = 0; i < MAXT; i++) T[tl_tid].vc[i] = std::max(T[tl_tid].vc[i], t.vc[i]);
  pthread_t r = t.real;
  typedef int (*pj)(pthread_t, void **);
  static pj f = (pj)dlsym(RTLD_NEXT, "pthread_join");
  f(r, nullptr);
  t.body = nullptr;
  t.state = 0;
  g_live--;
  tl_sut = sv;
}
static int find_thread(pthread_t p) {
  for (int i = 1; i < MAXT; i++)
    if (T[i].state != 0 && pthread_equal(T[i].real, p)) return i;
  return -1;
}

Outcome catch_all(const std::function<void()> &f) {
  Outcome o;
  auto set = [&](const char *k, const char *w) {
    Harness h;
    o.ok = false;
    o.kind = k;
    o.what = w ? w : "";
  };
  try {
    f();
  } catch (const std::bad_alloc &e) {
    set("bad_alloc", e.what());
  } catch (const std::exception &e) {
    set("std", e.what());
  } catch (const std::string &s) {
    set("string", s.c_str());
  } catch (const char *s) {
    set("cstr", s);
  } catch (...) {
    set("unknown", "");
  }
  return o;
}
Outcome sut(const std::function<void()> &f) {
  tl_sut = 1;
  Outcome o = catch_all(f);
  tl_sut = 0;
  return o;
}
std::vector<Outcome> sut_threads(const std::vector<std::function<void()>> &fs) {
  std::vector<Outcome> out(fs.size());
  std::vector<int> ids;
  for (size_t i = 0; i < fs.size(); i++) {
    Outcome *o = &out[i];
    const std::function<void()> *f = &fs[i];
    ids.push_back(spawn(nullptr, nullptr, [o, f] { *o = catch_all(*f); }, nullptr, 0));
    if (ids.back() < 0) {
      fprintf(stderr, "too many threads\n");
      _exit(9);
    }
  }
  for (int i : ids) reap(i);
  return out;
}

int live_threads() {
  int n = 0;
  for (int i = 1; i < MAXT; i++) n += T[i].state >= 1 && T[i].state <= 3;
  return n;
}
// ------------------------------------------------------------------ worlds
void begin(const World &w) {
  W = w;
  g_world++;
  g_ev = 0;
  g_vt = 0;
  g_switches = 0;
  g_hooks.clear();
  for (int i = 0; i < MAXT; i++)
    if (i == 0 || T[i].state != 4) T[i].state = 0;
  memset(T[0].vc, 0, sizeof T[0].vc);
  for (int i = 0; i < MAXT; i++) T[0].vc[i] = T[i].vc[i];
  T[0].state = 1;
  T[0].vc[0] = 1000 * (g_world + 1);
  T[0].prio = 0.5;
  T[0].stalled_until = 0;
  g_cur = 0;
  g_live = 1;
  tl_tid = 0;
  g_schrng = Rng(SH->runseed * 31 + w.sched_seed);
  g_faultrng = Rng(SH->runseed * 77 + w.sched_seed + 5);
  g_entropy = Rng(w.entropy_seed);
  g_fill = Rng(w.fill_seed);
  memset(g_occ, 0, sizeof g_occ);
  g_races = g_oob = 0;
  g_first_race[0] = g_first_oob[0] = 0;
  g_benign.clear();
  unprotect_all();
  g_sync.clear();
  if (h_used) {
    madvise((void *)H0, HSZ * sizeof(HEnt), MADV_DONTNEED);
    h_used = 0;
  }
  g_budget_at = w.event_budget;
  g_active = true;
  draw_slice();
}
EndInfo end(bool clean) {
  EndInfo e;
  e.events = g_ev;
  e.switches = g_switches;
  e.allocs = g_occ[F_ALLOC];
  e.live_blocks = live_n;
  e.live_bytes = live_b;
  e.races = g_races;
  e.oob = g_oob;
  e.vtime_ns = g_vt;
  e.first_race = g_first_race;
  e.first_oob = g_first_oob;
  if (live_head) {
    char b[200];
    snprintf(b, sizeof b, "%llu blocks, latest: %s of %llu bytes, allocation %llu", (unsigned long long)live_n, live_head->name ? live_head->name : "heap block", (unsigned long long)live_head->size, (unsigned long long)live_head->ord);
    e.first_leak = b;
  }
  SH->events += g_ev;
  SH->vtime += g_vt;
  SH->switches += g_switches;
  SH->races += g_races;
  observe(g_ev);
  g_active = false;
  unprotect_all();
  if (clean && W.leak_fatal && e.live_blocks) violate("leak", "memory is not released: %s", e.first_leak.c_str());
  return e;
}
World gen_world(int max_threads) {
  World w;
  w.omp_threads = max_threads <= 1 ? 1 : chi(1, max_threads);
  w.policy = (int)ch(P_NPOLICIES);
  static const double ms[] = {500, 3, 30, 5000, 50000};
  w.mean_slice = ms[ch(5)];
  w.pct_depth = chi(1, 6);
  static const uint64_t pl[] = {20000, 2000, 200000};
  w.pct_len = pl[ch(3)];
  w.sched_seed = chseed();
  w.fill = (int)ch(FILL_NKINDS);
  w.fill_seed = chseed();
  w.entropy_seed = chseed();
  return w;
}

// ------------------------------------------------------------------ faults
void add_rule(const FaultRule &r) {
  Harness h;
  W.rules.push_back(r);
}
void clear_rules() {
  Harness h;
  W.rules.clear();
}
uint64_t fault_fired(int k) { return SH->fired[k]; }
uint64_t fault_seen(int k) { return g_occ[k]; }
void fault_mark(int kind) {
  SH->fired[kind]++;
}
bool fault(int kind) {
  if (!g_active) return false;
  uint64_t n = g_occ[kind]++;
  bool f = false;
  if (g_replay) {
    for (uint64_t i = 0; i < IN->nfault; i++)
      if (IN->faults[i].kind == (uint32_t)kind && IN->faults[i].world == (uint32_t)g_world && IN->faults[i].n == n) {
        f = true;
        break;
      }
  } else {
    for (auto &r : W.rules)
      if (r.kind == kind) {
        if (r.len && n >= r.from && n < r.from + r.len) f = true;
        if (r.p > 0 && g_faultrng.real() < r.p) f = true;
      }
    if (f && SH->nfault >= MAXFAULT) f = false;
  }
  if (f) {
    if (SH->nfault < MAXFAULT) SH->faults[SH->nfault++] = {(uint32_t)kind, (uint32_t)g_world, n};
    SH->fired[kind]++;
    SH->hash = mix(SH->hash, 0xfa000000ULL + kind * 1000003ULL + n);
  }
  return f;
}

// ------------------------------------------------------------------ run entry (in child)
static void on_signal(int s) {
  // reports a crash of the code under test
  if (SH->status == 0) {
    const char *nm = s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : s == SIGBUS ? "SIGBUS" : s == SIGILL ? "SIGILL" : s == SIGALRM ? "wall-clock watchdog" : "signal";
    const char *k = s == SIGALRM ? "hang" : "crash";
    memcpy(SH->kind, k, strlen(k) + 1);
    size_t i = 0;
    const char *a = "process ended by ";
    while (*a) SH->msg[i++] = *a++;
    while (*nm) SH->msg[i++] = *nm++;
    SH->msg[i] = 0;
    SH->status = 2;
  }
  _exit(0);
}
static void on_terminate() {
  tl_sut = 0;
  const char *w = "";
  static char buf[256];
  if (auto p = std::current_exception()) {
    try {
      std::rethrow_exception(p);
    } catch (const std::exception &e) {
      snprintf(buf, sizeof buf, "%s", e.what());
      w = buf;
    } catch (...) {
      w = "(non-standard exception)";
    }
  }
  violate("terminate", "the process was terminated by an unhandled exception: %s", w);
}
void child_setup(uint64_t seed, int wall_s) {
  SH->runseed = seed;
  SH->hash = 0x1234;
  g_chrng = Rng(seed);
  g_chpos = 0;
  g_world = -1;
  __libc_single_threaded = 0;
  static char alt[64 * 1024];
  stack_t ss;
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
  sigset_t m;
  sigemptyset(&m);
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) sigaddset(&m, s);
  sigprocmask(SIG_UNBLOCK, &m, nullptr);
  std::set_terminate(on_terminate);
  alarm(wall_s);
}

// accessors for hooks.cpp
int &sut_flag() { return tl_sut; }
bool world_active() { return g_active; }
} // namespace sim

// =================================================================== interposition
using namespace sim;
#define EV(a, n, w)                                                                                                                                            \
  do {                                                                                                                                                         \
    if (__builtin_expect(tl_sut && g_active, 0)) {                                                                                                             \
      access2((uintptr_t)(a), n, w, __builtin_return_address(0));                                                                                              \
      tick();                                                                                                                                                  \
    }                                                                                                                                                          \
  } while (0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n)                                                                                                                                                  \
  void __tsan_read##n(void *a) { EV(a, n, false); }                                                                                                            \
  void __tsan_write##n(void *a) { EV(a, n, true); }                                                                                                            \
  void __tsan_unaligned_read##n(void *a) { EV(a, n, false); }                                                                                                  \
  void __tsan_unaligned_write##n(void *a) { EV(a, n, true); }                                                                                                  \
  void __tsan_volatile_read##n(void *a) { EV(a, n, false); }                                                                                                   \
  void __tsan_volatile_write##n(void *a) { EV(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { EV(a, n, false); }
void __tsan_write_range(void *a, unsigned long n) { EV(a, n, true); }
void __tsan_vptr_update(void **p, void *v) {
  // one event in any case: what a new object's memory held before may depend on the system's allocator
  if (__builtin_expect(tl_sut && g_active, 0)) {
    if (*p != v) access2((uintptr_t)p, 8, true, __builtin_return_address(0));
    tick();
  }
}
void __tsan_vptr_read(void **p) { EV(p, 8, false); }

// atomics: executed as they are, sequentially consistent, with HB edges
#define ATOMIC_EV(a)                                                                                                                                           \
  bool s_ = tl_sut && g_active;                                                                                                                                \
  if (s_) {                                                                                                                                                    \
    if (in_arena((void *)a) && !chk((uintptr_t)a, sizeof(*a))) report_oob((uintptr_t)a, sizeof(*a), true, __builtin_return_address(0));                        \
    tick();                                                                                                                                                    \
    hb_acquire((const void *)a);                                                                                                                               \
  }
#define ATOMIC_END(a)                                                                                                                                          \
  if (s_) hb_release((const void *)a);
#define ATOM(bits, type)                                                                                                                                       \
  type __tsan_atomic##bits##_load(const volatile type *a, int) {                                                                                               \
    ATOMIC_EV(a)                                                                                                                                               \
    type v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                                                             \
    return v;                                                                                                                                                  \
  }                                                                                                                                                            \
  void __tsan_atomic##bits##_store(volatile type *a, type v, int) {                                                                                            \
    ATOMIC_EV(a)                                                                                                                                               \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                                                                  \
    ATOMIC_END(a)                                                                                                                                              \
  }                                                                                                                                                            \
  type __tsan_atomic##bits##_exchange(volatile type *a, type v, int) {                                                                                         \
    ATOMIC_EV(a)                                                                                                                                               \
    type r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                                                                      \
    ATOMIC_END(a)                                                                                                                                              \
    return r;                                                                                                                                                  \
  }                                                                                                                                                            \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile type *a, type *e, type v, int, int) {                                                             \
    ATOMIC_EV(a)                                                                                                                                               \
    int r = __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                                       \
    ATOMIC_END(a)                                                                                                                                              \
    return r;                                                                                                                                                  \
  }                                                                                                                                                            \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile type *a, type *e, type v, int, int) {                                                               \
    ATOMIC_EV(a)                                                                                                                                               \
    int r = __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                                       \
    ATOMIC_END(a)                                                                                                                                              \
    return r;                                                                                                                                                  \
  }                                                                                                                                                            \
  type __tsan_atomic##bits##_compare_exchange_val(volatile type *a, type e, type v, int, int) {                                                                \
    ATOMIC_EV(a)                                                                                                                                               \
    __atomic_compare_exchange_n(a, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                                              \
    ATOMIC_END(a)                                                                                                                                              \
    return e;                                                                                                                                                  \
  }
#define ATOMOP(bits, type, nm, fn)                                                                                                                             \
  type __tsan_atomic##bits##_##nm(volatile type *a, type v, int) {                                                                                             \
    ATOMIC_EV(a)                                                                                                                                               \
    type r = fn(a, v, __ATOMIC_SEQ_CST);                                                                                                                       \
    ATOMIC_END(a)                                                                                                                                              \
    return r;                                                                                                                                                  \
  }
#define ATOMALL(bits, type)                                                                                                                                    \
  ATOM(bits, type)                                                                                                                                             \
  ATOMOP(bits, type, fetch_add, __atomic_fetch_add)                                                                                                            \
  ATOMOP(bits, type, fetch_sub, __atomic_fetch_sub)                                                                                                            \
  ATOMOP(bits, type, fetch_and, __atomic_fetch_and)                                                                                                            \
  ATOMOP(bits, type, fetch_or, __atomic_fetch_or)                                                                                                              \
  ATOMOP(bits, type, fetch_xor, __atomic_fetch_xor)
ATOMALL(8, uint8_t) ATOMALL(16, uint16_t) ATOMALL(32, uint32_t) ATOMALL(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// mem* from instrumented objects (--wrap)
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  if (tl_sut && g_active) {
    range_access(s, n, false, "memcpy");
    range_access(d, n, true, "memcpy");
  }
  return __real_memcpy(d, s, n);
}
// exception objects come from memory the simulator does not track: forget who used it before
void *__real___cxa_allocate_exception(size_t);
void *__wrap___cxa_allocate_exception(size_t n) {
  void *p = __real___cxa_allocate_exception(n);
  if (p && tl_sut && g_active) {
    forget_race((uintptr_t)p, n);
    uintptr_t a = (uintptr_t)p - 128, b = (uintptr_t)p + n;
    bool known = false;
    for (unsigned i = 0; i < g_nexc && i < 512 && !known; i++) known = g_exc[i].a == a && g_exc[i].b >= b;
    if (!known) g_exc[g_nexc++ % 512] = {a, b};
  }
  return p;
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  if (tl_sut && g_active) {
    range_access(s, n, false, "memmove");
    range_access(d, n, true, "memmove");
  }
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
  if (tl_sut && g_active) range_access(d, n, true, "memset");
  return __real_memset(d, c, n);
}

// ---- pthreads
#define REAL(name) ((decltype(&name))dlsym(RTLD_NEXT, #name))
int pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!(tl_sut && g_active)) return real_create()(th, at, fn, arg);
  if (fault(F_THREAD)) return EAGAIN;
  int det = 0;
  if (at) pthread_attr_getdetachstate(at, &det);
  int id = spawn(fn, arg, nullptr, nullptr, 0);
  if (id < 0) return EAGAIN;
  *th = T[id].real;
  if (det == PTHREAD_CREATE_DETACHED) T[id].detached = true;
  return 0;
}
int pthread_join(pthread_t th, void **ret) {
  if (!(tl_sut && g_active)) {
    static auto f = REAL(pthread_join);
    return f(th, ret);
  }
  int id = find_thread(th);
  if (id < 0) return ESRCH;
  reap(id);
  if (ret) *ret = T[id].ret;
  return 0;
}
int pthread_detach(pthread_t th) {
  if (!(tl_sut && g_active)) {
    static auto f = REAL(pthread_detach);
    return f(th);
  }
  int id = find_thread(th);
  if (id < 0) return ESRCH;
  T[id].detached = true;
  return 0;
}
}
struct SimMutex {
  int owner = -1;
  int count = 0;
};
static std::map<const void *, SimMutex> g_mutex;
static bool mtx_lock(const void *m, bool recursive, bool tryonly, int64_t until) {
  int sv = tl_sut;
  tl_sut = 0;
  yield_point();
  for (;;) {
    SimMutex &x = g_mutex[m];
    if (x.owner < 0) {
      x.owner = tl_tid;
      x.count = 1;
      break;
    }
    if (x.owner == tl_tid && recursive) {
      x.count++;
      break;
    }
    if (tryonly) {
      tl_sut = sv;
      return false;
    }
    if (!block_on(m, until)) {
      tl_sut = sv;
      return false;
    }
  }
  hb_acquire(m);
  tl_sut = sv;
  return true;
}
static void mtx_unlock(const void *m) {
  int sv = tl_sut;
  tl_sut = 0;
  SimMutex &x = g_mutex[m];
  hb_release(m);
  if (--x.count <= 0) {
    g_mutex.erase(m);
    wake_key(m, MAXT);
  }
  yield_point();
  tl_sut = sv;
}
static int64_t abs_to_vt(const struct timespec *ts) { return ts->tv_sec * 1000000000LL + ts->tv_nsec - W.clock_base_ns; }
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!(tl_sut && g_active)) {
    static auto f = REAL(pthread_mutex_lock);
    return f(m);
  }
  mtx_lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, false, -1);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!(tl_sut && g_active)) {
    static auto f = REAL(pthread_mutex_trylock);
    return f(m);
  }
  return mtx_lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, true, -1) ? 0 : EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!(tl_sut && g_active)) {
    static auto f = REAL(pthread_mutex_unlock);
    return f(m);
  }
  mtx_unlock(m);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  if (!(tl_sut && g_active)) {
    static auto f = REAL(pthread_rwlock_wrlock);
    return f(m);
  }
  mtx_lock(m, false, false, -1);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  if (!(tl_sut && g_active)) {
    static auto f = REAL(pthread_rwlock_rdlock);
    return f(m);
  }
  mtx_lock(m, false, false, -1);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) {
  if (!(tl_sut && g_active)) {
    static auto f = REAL(pthread_rwlock_unlock);
    return f(m);
  }
  mtx_unlock(m);
  return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!(tl_sut && g_active)) {
    static auto f = REAL(pthread_cond_wait);
    return f(c, m);
  }
  { // atomically release + block
    int sv = tl_sut;
    tl_sut = 0;
    hb_release(m);
    g_mutex.erase(m);
    wake_key(m, MAXT);
    tl_sut = sv;
  }
  block_on(c, -1);
  mtx_lock(m, false, false, -1);
  hb_acquire(c);
  return 0;
}
static int cond_timed(pthread_cond_t *c, pthread_mutex_t *m, int64_t wake) {
  {
    int sv = tl_sut;
    tl_sut = 0;
    hb_release(m);
    g_mutex.erase(m);
    wake_key(m, MAXT);
    tl_sut = sv;
  }
  bool ok = block_on(c, wake < g_vt ? g_vt : wake);
  mtx_lock(m, false, false, -1);
  hb_acquire(c);
  return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  if (!(tl_sut && g_active)) {
    static auto f = REAL(pthread_cond_timedwait);
    return f(c, m, ts);
  }
  return cond_timed(c, m, abs_to_vt(ts));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts) {
  if (!(tl_sut && g_active)) {
    typedef int (*cw)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
    static cw f = (cw)dlsym(RTLD_NEXT, "pthread_cond_clockwait");
    return f(c, m, 0, ts);
  }
  return cond_timed(c, m, abs_to_vt(ts));
}
int pthread_cond_signal(pthread_cond_t *c) {
  if (!(tl_sut && g_active)) {
    static auto f = REAL(pthread_cond_signal);
    return f(c);
  }
  hb_release(c);
  wake_key(c, 1);
  yield_point();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!(tl_sut && g_active)) {
    static auto f = REAL(pthread_cond_broadcast);
    return f(c);
  }
  hb_release(c);
  wake_key(c, MAXT);
  yield_point();
  return 0;
}
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
  if (!(tl_sut && g_active)) {
    if (*o == 2) return 0;
    static auto f = REAL(pthread_once);
    return f(o, fn);
  }
  for (;;) {
    hb_acquire(o);
    if (*o == 2) return 0;
    if (*o == 0) {
      *o = 1;
      try {
        fn();
      } catch (...) {
        *o = 0;
        wake_key(o, MAXT);
        throw;
      }
      *o = 2;
      hb_release(o);
      wake_key(o, MAXT);
      yield_point();
      return 0;
    }
    block_on(o, -1);
  }
}
int __cxa_guard_acquire(long long *g_) {
  char *g = (char *)g_;
  bool s = tl_sut && g_active;
  for (;;) {
    if (s) hb_acquire(g);
    if (__atomic_load_n(g, __ATOMIC_ACQUIRE)) return 0;
    if (!g[1]) {
      g[1] = 1;
      return 1;
    }
    if (s) block_on(g, -1);
    else sched_yield();
  }
}
void __cxa_guard_release(long long *g_) {
  char *g = (char *)g_;
  __atomic_store_n(g, 1, __ATOMIC_RELEASE);
  g[1] = 0;
  if (tl_sut && g_active) {
    hb_release(g);
    wake_key(g, MAXT);
  }
}
void __cxa_guard_abort(long long *g_) {
  char *g = (char *)g_;
  g[1] = 0;
  if (tl_sut && g_active) wake_key(g, MAXT);
}
int nanosleep(const struct timespec *ts, struct timespec *rem) {
  if (!(tl_sut && g_active)) {
    static auto f = REAL(nanosleep);
    return f(ts, rem);
  }
  block_on(nullptr, g_vt + ts->tv_sec * 1000000000LL + ts->tv_nsec);
  return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *ts, struct timespec *rem) {
  if (!(tl_sut && g_active)) {
    static auto f = REAL(clock_nanosleep);
    return f(c, flags, ts, rem);
  }
  int64_t w = ts->tv_sec * 1000000000LL + ts->tv_nsec;
  w = (flags & TIMER_ABSTIME) ? w - W.clock_base_ns : g_vt + w;
  block_on(nullptr, w < g_vt ? g_vt : w);
  return 0;
}
int usleep(useconds_t u) {
  struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000};
  return nanosleep(&t, nullptr);
}
unsigned sleep(unsigned s) {
  struct timespec t = {(time_t)s, 0};
  nanosleep(&t, nullptr);
  return 0;
}
int sched_yield() {
  if (!(tl_sut && g_active)) return (int)syscall(SYS_sched_yield);
  yield_point();
  return 0;
}
}
namespace sim {
int64_t g_clock_skew = 0;
int64_t sim_clock() {
  if (fault(F_CLOCK)) {
    static const int64_t j[] = {-3600000000000LL, 3600000000000LL, -1000000LL, 86400000000000LL * 400, -86400000000000LL * 400};
    g_clock_skew += j[g_occ[F_CLOCK] % 5];
  }
  return W.clock_base_ns + g_vt + g_clock_skew;
}
} // namespace sim
extern "C" {
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!(tl_sut && g_active)) return (int)syscall(SYS_clock_gettime, c, ts);
  int64_t n = c == CLOCK_REALTIME ? sim_clock() : W.clock_base_ns + g_vt;
  ts->tv_sec = n / 1000000000LL;
  ts->tv_nsec = n % 1000000000LL;
  return 0;
}
time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
int gettimeofday(struct timeval *tv, void *) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
clock_t clock() {
  if (!(tl_sut && g_active)) {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts);
    return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
  }
  return g_vt / 1000;
}
int rand() {
  if (!(tl_sut && g_active)) {
    static auto f = REAL(rand);
    return f();
  }
  return (int)(g_entropy.next() & 0x7fffffff);
}
}
std::chrono::system_clock::time_point std::chrono::_V2::system_clock::now() noexcept {
  struct timespec ts;
  ::clock_gettime(CLOCK_REALTIME, &ts);
  return time_point(duration(chrono::seconds(ts.tv_sec) + chrono::nanoseconds(ts.tv_nsec)));
}
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept {
  struct timespec ts;
  ::clock_gettime(CLOCK_MONOTONIC, &ts);
  return time_point(duration(chrono::seconds(ts.tv_sec) + chrono::nanoseconds(ts.tv_nsec)));
}
void std::random_device::_M_init(const std::string &) {
  if (tl_sut && g_active && fault(F_ENTROPY)) throw std::runtime_error("random_device: no entropy (simulated)");
}
void std::random_device::_M_init_pretr1(const std::string &t) { _M_init(t); }
void std::random_device::_M_fini() {}
unsigned std::random_device::_M_getval() {
  if (tl_sut && g_active && fault(F_ENTROPY)) throw std::runtime_error("random_device: read failed (simulated)");
  if (tl_sut && g_active) {
    probe("entropy_reads");
    return (unsigned)g_entropy.next();
  }
  static Rng r(4242);
  return (unsigned)r.next();
}
unsigned std::random_device::_M_getval_pretr1() { return _M_getval(); }
double std::random_device::_M_getentropy() const noexcept { return 32; }
unsigned std::thread::hardware_concurrency() noexcept { return g_active ? (unsigned)W.omp_threads : 1; }

bool std::__atomic_futex_unsigned_base::_M_futex_wait_until(unsigned *addr, unsigned val, bool has, std::chrono::seconds s, std::chrono::nanoseconds ns) {
  if (!(tl_sut && g_active)) {
    while (__atomic_load_n(addr, __ATOMIC_SEQ_CST) == val) {
      struct timespec t = {0, 1000};
      syscall(SYS_nanosleep, &t, nullptr);
    }
    return true;
  }
  hb_acquire(addr);
  if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return true;
  int64_t w = -1;
  if (has) {
    w = s.count() * 1000000000LL + ns.count() - W.clock_base_ns;
    if (w < g_vt) w = g_vt;
  }
  bool r = block_on(addr, w);
  hb_acquire(addr);
  return r;
}
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned *addr, unsigned val, bool has, std::chrono::seconds s, std::chrono::nanoseconds ns) { return _M_futex_wait_until(addr, val, has, s, ns); }
void std::__atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *addr) {
  if (!(tl_sut && g_active)) return;
  hb_release(addr);
  wake_key(addr, MAXT);
  yield_point();
}

// ---- operator new / delete
static void *new_impl(size_t n, bool nothrow, size_t align = 16) {
  if (tl_sut && g_active) {
    bool f = fault(F_ALLOC);
    tick();
    if (n > (size_t)1 << 40) f = true;
    void *p = f ? nullptr : a_alloc(n, nullptr, align);
    if (!p) {
      if (nothrow) return nullptr;
      throw std::bad_alloc();
    }
    return p;
  }
  void *p = align > 16 ? aligned_alloc(align, (n + align - 1) & ~(align - 1)) : malloc(n ? n : 1);
  if (!p && !nothrow) throw std::bad_alloc();
  return p;
}
static void del_impl(void *p) {
  if (!p) return;
  if (in_arena(p)) a_free(p);
  else free(p);
}
void *operator new(size_t n) { return new_impl(n, false); }
void *operator new[](size_t n) { return new_impl(n, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return new_impl(n, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return new_impl(n, true); }
void *operator new(size_t n, std::align_val_t a) { return new_impl(n, false, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return new_impl(n, false, (size_t)a); }
void operator delete(void *p) noexcept { del_impl(p); }
void operator delete[](void *p) noexcept { del_impl(p); }
void operator delete(void *p, size_t) noexcept { del_impl(p); }
void operator delete[](void *p, size_t) noexcept { del_impl(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { del_impl(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { del_impl(p); }
void operator delete(void *p, std::align_val_t) noexcept { del_impl(p); }
void operator delete[](void *p, std::align_val_t) noexcept { del_impl(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { del_impl(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { del_impl(p); }

// ---- OpenMP
namespace sim {
struct WorkShare {
  bool init = false;
  long next = 0, end = 0, incr = 1, chunk = 1;
  unsigned single = 0;
};
struct Team {
  int n = 1;
  int arrived = 0;
  uint64_t gen = 0;
  std::map<uint64_t, WorkShare> ws;
  Team *parent = nullptr;
};
} // namespace sim
static void team_barrier() {
  Team *t = tl_team;
  if (!t || t->n <= 1 || !(tl_sut && g_active)) return;
  uint64_t g = t->gen;
  hb_release(t);
  if (++t->arrived == t->n) {
    t->arrived = 0;
    t->gen++;
    wake_key(t, MAXT);
    yield_point();
  } else {
    while (t->gen == g) block_on(t, -1);
  }
  hb_acquire(t);
}
static int g_icv_threads = 0;
extern "C" {
static void run_parallel(void (*fn)(void *), void *data, unsigned n) {
  if (!(tl_sut && g_active)) {
    Team *st = tl_team;
    tl_team = nullptr;
    fn(data);
    tl_team = st;
    return;
  }
  int k = W.omp_threads;
  if (g_icv_threads > 0) k = std::min(k, g_icv_threads);
  if (n) k = std::min<int>(k, (int)n);
  if (tl_team && tl_team->n > 1) k = 1;
  if (k > MAXT - 2) k = MAXT - 2;
  int sv = tl_sut;
  tl_sut = 0;
  Team *team = new Team();
  team->n = k;
  team->parent = tl_team;
  int sid = tl_omp_id;
  uint64_t sws = tl_ws;
  probe("omp_regions");
  std::vector<int> ids;
  for (int i = 1; i < k; i++) {
    int id = spawn(nullptr, nullptr, [fn, data] { fn(data); }, team, i);
    if (id < 0) {
      fprintf(stderr, "too many simulated threads\n");
      _exit(9);
    }
    ids.push_back(id);
  }
  Team *st = tl_team;
  tl_team = team;
  tl_omp_id = 0;
  tl_ws = 0;
  tl_sut = sv;
  fn(data);
  tl_sut = 0;
  for (int id : ids) reap(id);
  tl_team = st;
  tl_omp_id = sid;
  tl_ws = sws;
  delete team;
  tl_sut = sv;
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { run_parallel(fn, data, n); }
static WorkShare local_ws;
static WorkShare &cur_ws() {
  int sv = tl_sut;
  tl_sut = 0;
  WorkShare &w = tl_team ? tl_team->ws[tl_ws] : local_ws;
  tl_sut = sv;
  return w;
}
static bool ws_next(long *is, long *ie) {
  WorkShare &w = cur_ws();
  yield_point();
  bool up = w.incr > 0;
  if (up ? w.next >= w.end : w.next <= w.end) return false;
  long step = w.incr * (w.chunk < 1 ? 1 : w.chunk);
  long e = w.next + step;
  if (up ? e > w.end : e < w.end) e = w.end;
  *is = w.next;
  *ie = e;
  w.next = e;
  return true;
}
static void ws_init(long s, long e, long i, long c) {
  tl_ws++;
  WorkShare &w = cur_ws();
  if (!tl_team) w = WorkShare();
  if (!w.init) {
    w.init = true;
    w.next = s;
    w.end = e;
    w.incr = i;
    w.chunk = c;
  }
}
#define LOOPS(kind)                                                                                                                                            \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *is, long *ie) {                                                                          \
    ws_init(s, e, i, c);                                                                                                                                       \
    return ws_next(is, ie);                                                                                                                                    \
  }                                                                                                                                                            \
  bool GOMP_loop_##kind##_next(long *is, long *ie) { return ws_next(is, ie); }                                                                                 \
  void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) {                                          \
    struct A {                                                                                                                                                 \
      void (*fn)(void *);                                                                                                                                      \
      void *d;                                                                                                                                                 \
      long s, e, i, c;                                                                                                                                         \
    } a = {fn, d, s, e, i, c};                                                                                                                                 \
    run_parallel(                                                                                                                                              \
        [](void *p) {                                                                                                                                          \
          A *a = (A *)p;                                                                                                                                       \
          ws_init(a->s, a->e, a->i, a->c);                                                                                                                     \
          a->fn(a->d);                                                                                                                                         \
        },                                                                                                                                                     \
        &a, n);                                                                                                                                                \
  }
LOOPS(static) LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
#define RTLOOPS(kind)                                                                                                                                          \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long *is, long *ie) {                                                                                  \
    ws_init(s, e, i, 1);                                                                                                                                       \
    return ws_next(is, ie);                                                                                                                                    \
  }                                                                                                                                                            \
  bool GOMP_loop_##kind##_next(long *is, long *ie) { return ws_next(is, ie); }                                                                                 \
  void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, f); }
RTLOOPS(runtime) RTLOOPS(maybe_nonmonotonic_runtime) RTLOOPS(nonmonotonic_runtime)
void GOMP_loop_end() { team_barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() {
  team_barrier();
  return false;
}
void GOMP_barrier() { team_barrier(); }
bool GOMP_barrier_cancel() {
  team_barrier();
  return false;
}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_single_start() {
  tl_ws++;
  WorkShare &w = cur_ws();
  if (!tl_team) return true;
  yield_point();
  return w.single++ == 0;
}
unsigned GOMP_sections_start(unsigned n) {
  ws_init(0, n, 1, 1);
  long a, b;
  return ws_next(&a, &b) ? (unsigned)a + 1 : 0;
}
unsigned GOMP_sections_next() {
  long a, b;
  return ws_next(&a, &b) ? (unsigned)a + 1 : 0;
}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned cnt, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, 0, cnt, 1, 1, f); }
void GOMP_sections_end() { team_barrier(); }
void GOMP_sections_end_nowait() {}
static int crit_key, atomic_key;
void GOMP_critical_start() {
  if (tl_sut && g_active) mtx_lock(&crit_key, false, false, -1);
}
void GOMP_critical_end() {
  if (tl_sut && g_active) mtx_unlock(&crit_key);
}
void GOMP_critical_name_start(void **p) {
  if (tl_sut && g_active) mtx_lock(p, false, false, -1);
}
void GOMP_critical_name_end(void **p) {
  if (tl_sut && g_active) mtx_unlock(p);
}
void GOMP_atomic_start() {
  if (tl_sut && g_active) mtx_lock(&atomic_key, false, false, -1);
}
void GOMP_atomic_end() {
  if (tl_sut && g_active) mtx_unlock(&atomic_key);
}
void GOMP_task(void (*fn)(void *), void *d, void (*cpy)(void *, void *), long sz, long al, bool, unsigned, void **, int, void *) {
  if (cpy) {
    std::vector<char> b(sz + al);
    char *p = (char *)(((uintptr_t)b.data() + al - 1) & ~(uintptr_t)(al - 1));
    cpy(p, d);
    fn(p);
  } else
    fn(d);
}
void GOMP_taskwait() {}
void GOMP_taskyield() { yield_point(); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
int omp_get_thread_num() { return tl_team ? tl_omp_id : 0; }
int omp_get_num_threads() { return tl_team ? tl_team->n : 1; }
int omp_get_max_threads() { return g_active ? (g_icv_threads ? g_icv_threads : W.omp_threads) : 1; }
int omp_get_num_procs() { return g_active ? W.omp_threads : 1; }
int omp_get_thread_limit() { return 8; }
int omp_in_parallel() { return tl_team && tl_team->n > 1; }
int omp_get_level() { return tl_team ? 1 : 0; }
int omp_get_active_level() { return omp_in_parallel(); }
int omp_get_dynamic() { return 0; }
int omp_get_nested() { return 0; }
int omp_get_max_active_levels() { return 1; }
void omp_set_num_threads(int n) { g_icv_threads = n; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
void omp_set_max_active_levels(int) {}
double omp_get_wtime() { return g_active ? g_vt * 1e-9 : 0; }
void omp_init_lock(void **p) { *p = nullptr; }
void omp_destroy_lock(void **) {}
void omp_set_lock(void **p) { GOMP_critical_name_start(p); }
void omp_unset_lock(void **p) { GOMP_critical_name_end(p); }
int omp_test_lock(void **p) { return tl_sut && g_active ? mtx_lock(p, false, true, -1) : 1; }
}

// Driver of simulated runs: one forked child per run; replay; minimiser.
#include "rt.h"
#include "rt_int.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <vector>
using namespace sim;
struct Sc {
  std::string prop, name;
  ScenarioFn fn;
  double w;
};
static std::vector<Sc> &reg() {
  static std::vector<Sc> r;
  return r;
}
namespace sim {
Register::Register(const char *p, const char *n, ScenarioFn f, double w) { reg().push_back({p, n, f, w}); }
void app_init() __attribute__((weak)); // optional (embedded R)
void app_cleanup() __attribute__((weak)); // after each run
}
static int g_wall = 60;
static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static void clear_shared() {
  SH->status = 0;
  SH->nontrivial = SH->nprobe = SH->nkeys = 0;
  SH->kind[0] = SH->msg[0] = SH->notes[0] = SH->desc[0] = 0;
  SH->runseed = SH->hash = SH->schedhash = SH->events = SH->switches = SH->races = 0;
  SH->vtime = 0;
  memset(SH->fired, 0, sizeof SH->fired);
  SH->nch = SH->nsched = SH->nfault = 0;
}
static bool g_nofork = false;
static void child(const Sc &s, uint64_t seed, bool replay) {
  g_replay = replay;
  child_setup(seed, g_wall);
  s.fn();
  SH->status = 1;
  _exit(0);
}
static void run_one(const Sc &s, uint64_t seed, bool replay) {
  clear_shared();
  fflush(stdout);
  if (g_nofork) child(s, seed, replay);
  pid_t p = fork();
  if (p == 0) {
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    child(s, seed, replay);
  }
  int st;
  while (waitpid(p, &st, 0) < 0) {}
  if (sim::app_cleanup) sim::app_cleanup();
  if (SH->status == 0) {
    SH->status = 2;
    if (WIFEXITED(st)) {
      snprintf(SH->kind, sizeof SH->kind, "process-exit");
      snprintf(SH->msg, sizeof SH->msg, "the process ended with exit status %d", WEXITSTATUS(st));
    } else {
      snprintf(SH->kind, sizeof SH->kind, "crash");
      snprintf(SH->msg, sizeof SH->msg, "the process was killed by signal %d", WTERMSIG(st));
      if (WTERMSIG(st) == SIGKILL) SH->status = 9;
    }
  }
}
static uint64_t mix64(uint64_t a, uint64_t b) {
  Rng r(a ^ (b * 0xD1342543DE82EF95ULL + 77));
  return r.next() >> 1;
}
static uint64_t hstr(const std::string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (char c : s) h = (h ^ (unsigned char)c) * 1099511628211ULL;
  return h;
}
static const Sc *find_sc(const std::string &p, const std::string &n) {
  for (auto &s : reg())
    if (s.prop == p && s.name == n) return &s;
  return nullptr;
}
static std::string esc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') o += '\\', o += c;
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) o += '?';
    else o += c;
  }
  return o;
}
struct Trace {
  std::string prop, name, kind, msg;
  uint64_t seed = 0, hash = 0;
  std::vector<uint64_t> ch;
  std::vector<SchedE> sched;
  std::vector<FaultE> faults;
};
static Trace snap(const Sc &s, uint64_t seed) {
  Trace t;
  t.prop = s.prop;
  t.name = s.name;
  t.kind = SH->kind;
  t.msg = SH->msg;
  t.seed = seed;
  t.hash = SH->hash;
  t.ch.assign(SH->ch, SH->ch + SH->nch);
  t.sched.assign(SH->sched, SH->sched + SH->nsched);
  t.faults.assign(SH->faults, SH->faults + SH->nfault);
  return t;
}
static void write_trace(const Trace &t, const std::string &path, const std::string &extra = "") {
  std::string tmp = path + ".tmp";
  {
    std::ofstream f(tmp);
    f << "ldtsim-replay 1\nproperty " << t.prop << "\nscenario " << t.name << "\nseed " << t.seed << "\nkind " << t.kind << "\nhash " << t.hash << "\nmessage " << esc(t.msg) << "\n";
    f << "choices " << t.ch.size();
    for (auto v : t.ch) f << " " << v;
    f << "\nschedule " << t.sched.size();
    for (auto &e : t.sched) f << " " << e.world << ":" << e.ev << ":" << e.tid;
    f << "\nfaults " << t.faults.size();
    for (auto &e : t.faults) f << " " << e.world << ":" << e.kind << ":" << e.n;
    f << "\n";
    for (auto &e : t.faults) f << "# fault " << fault_names[e.kind] << " at occurrence " << e.n << " of world " << e.world << "\n";
    if (!extra.empty()) f << extra;
  }
  rename(tmp.c_str(), path.c_str());
}
static bool read_trace(const std::string &path, Trace &t) {
  std::ifstream f(path);
  std::string line;
  if (!std::getline(f, line) || line != "ldtsim-replay 1") return false;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    std::string k;
    is >> k;
    auto rest = [&] {
      std::string r;
      std::getline(is, r);
      return r.size() ? r.substr(1) : r;
    };
    if (k == "property") is >> t.prop;
    else if (k == "scenario") is >> t.name;
    else if (k == "seed") is >> t.seed;
    else if (k == "kind") t.kind = rest();
    else if (k == "hash") is >> t.hash;
    else if (k == "message") t.msg = rest();
    else if (k == "choices") {
      size_t n;
      is >> n;
      for (size_t i = 0; i < n; i++) {
        uint64_t v;
        is >> v;
        t.ch.push_back(v);
      }
    } else if (k == "schedule") {
      size_t n;
      is >> n;
      for (size_t i = 0; i < n; i++) {
        SchedE e;
        char c;
        is >> e.world >> c >> e.ev >> c >> e.tid;
        t.sched.push_back(e);
      }
    } else if (k == "faults") {
      size_t n;
      is >> n;
      for (size_t i = 0; i < n; i++) {
        FaultE e;
        char c;
        is >> e.world >> c >> e.kind >> c >> e.n;
        t.faults.push_back(e);
      }
    }
  }
  return true;
}
static void load_input(const Trace &t) {
  IN->nch = std::min<uint64_t>(t.ch.size(), MAXCH);
  std::copy(t.ch.begin(), t.ch.begin() + IN->nch, IN->ch);
  IN->nsched = std::min<uint64_t>(t.sched.size(), MAXSCHED);
  std::copy(t.sched.begin(), t.sched.begin() + IN->nsched, IN->sched);
  IN->nfault = std::min<uint64_t>(t.faults.size(), MAXFAULT);
  std::copy(t.faults.begin(), t.faults.begin() + IN->nfault, IN->faults);
}
static void replay_run(const Sc &s, const Trace &t) {
  load_input(t);
  run_one(s, t.seed, true);
}

// ---- minimiser: keeps the violation kind
static Trace shrink(const Sc &s, Trace best, double tmax, int &tries) {
  double t0 = now();
  std::string kind = best.kind;
  auto ok = [&](Trace &c) {
    if (now() - t0 > tmax) return false;
    tries++;
    replay_run(s, c);
    if (SH->status == 2 && kind == SH->kind) {
      Trace n = snap(s, c.seed);
      // keep only what the run consumed
      best = n;
      return true;
    }
    return false;
  };
  {
    Trace c = best;
    if (!ok(c)) return best;
  }
  bool progress = true;
  int round = 0;
  while (progress && now() - t0 < tmax && round++ < 6) {
    progress = false;
    // schedule
    if (!best.sched.empty()) {
      Trace c = best;
      c.sched.clear();
      if (ok(c)) progress = true;
      else
        for (size_t len = best.sched.size(); len >= 1 && now() - t0 < tmax; len /= 2) {
          for (size_t i = 0; i < best.sched.size() && now() - t0 < tmax;) {
            Trace c2 = best;
            size_t e = std::min(best.sched.size(), i + len);
            c2.sched.erase(c2.sched.begin() + i, c2.sched.begin() + e);
            size_t before = best.sched.size();
            if (ok(c2) && best.sched.size() < before) progress = true;
            else i += len;
          }
        }
    }
    // faults
    for (size_t len = std::max<size_t>(1, best.faults.size()); len >= 1 && !best.faults.empty(); len /= 2)
      for (size_t i = 0; i < best.faults.size() && now() - t0 < tmax;) {
        Trace c = best;
        c.faults.erase(c.faults.begin() + i, c.faults.begin() + std::min(best.faults.size(), i + len));
        size_t before = best.faults.size();
        if (ok(c) && best.faults.size() < before) progress = true;
        else i += len;
      }
    // choices: zero blocks, delete blocks, lower values
    for (size_t len = std::max<size_t>(1, best.ch.size() / 2); len >= 1; len /= 2) {
      for (size_t i = 0; i < best.ch.size() && now() - t0 < tmax; i += len) {
        Trace c = best;
        bool any = false;
        for (size_t k = i; k < std::min(c.ch.size(), i + len); k++)
          if (c.ch[k]) c.ch[k] = 0, any = true;
        if (any && ok(c)) progress = true;
      }
      if (len == 1) break;
    }
    for (size_t len = std::min<size_t>(8, best.ch.size()); len >= 1; len /= 2) {
      for (size_t i = 0; i + len <= best.ch.size() && now() - t0 < tmax; i++) {
        Trace c = best;
        c.ch.erase(c.ch.begin() + i, c.ch.begin() + i + len);
        size_t before = best.ch.size();
        if (ok(c) && best.ch.size() < before) progress = true;
      }
      if (len == 1) break;
    }
    for (size_t i = 0; i < best.ch.size() && now() - t0 < tmax; i++) {
      uint64_t lo = 0, hi = best.ch[i];
      while (lo < hi && now() - t0 < tmax) {
        uint64_t mid = lo + (hi - lo) / 2;
        Trace c = best;
        if (i >= c.ch.size()) break;
        c.ch[i] = mid;
        if (ok(c)) {
          progress = true;
          if (i >= best.ch.size()) break;
          hi = std::min(best.ch[i], mid);
        } else
          lo = mid + 1;
      }
    }
  }
  return best;
}

int main(int argc, char **argv) {
  std::string mode = argc > 1 ? argv[1] : "";
  std::map<std::string, std::string> o;
  std::vector<std::string> pos;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    if (a.substr(0, 2) == "--" && i + 1 < argc) o[a.substr(2)] = argv[++i];
    else pos.push_back(a);
  }
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  IN = (Input *)mmap(nullptr, sizeof(Input), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  rt_global_init();
  {
    std::thread t([] {});
    t.join();
  }
  if (o.count("wall")) g_wall = atoi(o["wall"].c_str());
  g_tier = o.count("tier") && o["tier"] == "thorough";
  if (mode == "list") {
    for (auto &s : reg()) printf("%s %s %g\n", s.prop.c_str(), s.name.c_str(), s.w);
    return 0;
  }
  if (app_init) app_init();
  if (mode == "seed") { // one seed several times, for debugging
    const Sc *s = find_sc(o["prop"], o["scenario"]);
    for (int k = 0; s && k < (o.count("n") ? atoi(o["n"].c_str()) : 3); k++) {
      run_one(*s, strtoull(o["seed"].c_str(), 0, 10), false);
      printf("status %d %s | %s | %s | hash %llx events %llu\n%s", SH->status, SH->kind, SH->msg, SH->desc, (unsigned long long)SH->hash, (unsigned long long)SH->events, SH->notes);
    }
    return 0;
  }
  if (mode == "run") {
    std::string prop = o["prop"];
    uint64_t S = strtoull(o["seed"].c_str(), 0, 10), from = strtoull(o["from"].c_str(), 0, 10), stride = o.count("stride") ? strtoull(o["stride"].c_str(), 0, 10) : 1;
    uint64_t maxn = o.count("max") ? strtoull(o["max"].c_str(), 0, 10) : ~0ULL;
    double T = o.count("time") ? atof(o["time"].c_str()) : 1e9;
    std::string out = o["out"], rdir = o.count("replays") ? o["replays"] : ".";
    int maxviol = o.count("maxviol") ? atoi(o["maxviol"].c_str()) : 3;
    bool verbose = o.count("verbose");
    std::vector<const Sc *> scs;
    double tw = 0;
    for (auto &s : reg())
      if (s.prop == prop && (!o.count("scenario") || o["scenario"] == s.name)) scs.push_back(&s), tw += s.w;
    if (scs.empty()) {
      fprintf(stderr, "no scenario for %s\n", prop.c_str());
      return 2;
    }
    double t0 = now();
    uint64_t runs = 0, nontriv = 0, disc = 0, viol = 0, events = 0, switches = 0, races = 0, nondet = 0, rechecks = 0, errors = 0;
    double vt = 0;
    uint64_t fired[16] = {0}, firedruns[16] = {0};
    std::map<std::string, uint64_t> probes, discs, perscen;
    std::set<uint64_t> sh, keys, hashes;
    std::vector<std::string> samples;
    std::vector<std::string> vfiles;
    for (uint64_t i = from; runs < maxn && now() - t0 < T; i += stride) {
      uint64_t seed = mix64(S ^ hstr(prop), i);
      Rng r(seed ^ 0x5555);
      double x = r.real() * tw;
      const Sc *s = scs.back();
      for (auto c : scs) {
        if (x < c->w) {
          s = c;
          break;
        }
        x -= c->w;
      }
      double rt0 = now();
      run_one(*s, seed, false);
      runs++;
      perscen[s->name]++;
      if (verbose) printf("run %llu seed %llu %s status %d %s | %s | ev %llu sw %llu nch %llu %.1fms hash %llx\n%s", (unsigned long long)i, (unsigned long long)seed, s->name.c_str(), SH->status, SH->kind, SH->msg, (unsigned long long)SH->events, (unsigned long long)SH->switches, (unsigned long long)SH->nch, (now() - rt0) * 1e3, (unsigned long long)SH->hash, SH->notes);
      events += SH->events;
      switches += SH->switches;
      races += SH->races;
      vt += SH->vtime * 1e-9;
      for (int k = 0; k < F_NKINDS; k++) {
        fired[k] += SH->fired[k];
        firedruns[k] += SH->fired[k] > 0;
      }
      for (int k = 0; k < SH->nprobe; k++) probes[SH->probes[k].name] += SH->probes[k].n;
      if (SH->status == 3) {
        disc++;
        discs[SH->kind]++;
        continue;
      }
      if (SH->status == 9) {
        errors++;
        fprintf(stderr, "harness error in run seed %llu: %s %s\n", (unsigned long long)seed, SH->kind, SH->msg);
        continue;
      }
      if (SH->nontrivial && hashes.insert(SH->hash).second) nontriv++;
      if (SH->switches) sh.insert(SH->schedhash);
      for (int k = 0; k < SH->nkeys; k++)
        if (keys.size() < 2000000) keys.insert(SH->keys[k]);
      if (SH->desc[0] && samples.size() < 3 && SH->status == 1 && SH->nontrivial) samples.push_back(s->name + ": " + SH->desc);
      if (SH->status == 2) {
        viol++;
        Trace t = snap(*s, seed);
        std::string fn = rdir + "/" + prop + "-" + std::to_string(S) + "-" + std::to_string(i) + ".replay";
        write_trace(t, fn, std::string("# ") + esc(SH->desc) + "\n");
        vfiles.push_back(fn);
        if ((int)viol >= maxviol) break;
        continue;
      }
      if (runs % 40 == 7) { // determinism: run the same seed again
        uint64_t h = SH->hash;
        run_one(*s, seed, false);
        rechecks++;
        if (SH->hash != h || SH->status != 1) {
          nondet++;
          fprintf(stderr, "nondeterministic run seed %llu scenario %s: %llx vs %llx status %d %s\n", (unsigned long long)seed, s->name.c_str(), (unsigned long long)h, (unsigned long long)SH->hash, SH->status, SH->msg);
        }
      }
    }
    std::ostringstream j;
    j.precision(10);
    j << "{\"runs\":" << runs << ",\"nontrivial\":" << nontriv << ",\"discarded\":" << disc << ",\"violations\":" << viol << ",\"events\":" << events << ",\"switches\":" << switches << ",\"races\":" << races << ",\"vtime_s\":" << vt << ",\"rechecks\":" << rechecks << ",\"nondet\":" << nondet << ",\"errors\":" << errors << ",\"wall\":" << now() - t0 << ",\"sched_hashes\":[";
    bool first = true;
    int lim = 0;
    for (auto h : sh) {
      if (lim++ > 200000) break;
      j << (first ? "" : ",") << "\"" << std::hex << h << std::dec << "\"", first = false;
    }
    j << "],\"keys\":[";
    first = true;
    lim = 0;
    for (auto h : keys) {
      if (lim++ > 200000) break;
      j << (first ? "" : ",") << "\"" << std::hex << h << std::dec << "\"", first = false;
    }
    auto mp = [&](const char *nm, std::map<std::string, uint64_t> &m) {
      j << ",\"" << nm << "\":{";
      bool f = true;
      for (auto &p : m) j << (f ? "" : ",") << "\"" << esc(p.first) << "\":" << p.second, f = false;
      j << "}";
    };
    j << "]";
    mp("probes", probes);
    mp("discards", discs);
    mp("scenarios", perscen);
    std::map<std::string, uint64_t> fm, fr;
    for (int k = 0; k < F_NKINDS; k++) fm[fault_names[k]] = fired[k], fr[fault_names[k]] = firedruns[k];
    mp("faults", fm);
    mp("faults_runs", fr);
    auto ar = [&](const char *nm, std::vector<std::string> &m) {
      j << ",\"" << nm << "\":[";
      bool f = true;
      for (auto &p : m) j << (f ? "" : ",") << "\"" << esc(p) << "\"", f = false;
      j << "]";
    };
    ar("samples", samples);
    ar("replays", vfiles);
    j << "}\n";
    if (!out.empty()) std::ofstream(out) << j.str();
    else if (!verbose) printf("%s", j.str().c_str());
    return 0;
  }
  if (mode == "replay" || mode == "shrink") {
    Trace t;
    if (pos.empty() || !read_trace(pos[0], t)) {
      fprintf(stderr, "cannot read replay file\n");
      return 2;
    }
    const Sc *s = find_sc(t.prop, t.name);
    if (!s) {
      fprintf(stderr, "unknown scenario\n");
      return 2;
    }
    if (mode == "shrink") {
      int tries = 0;
      Trace b = shrink(*s, t, o.count("time") ? atof(o["time"].c_str()) : 30, tries);
      replay_run(*s, b);
      Trace fin = snap(*s, b.seed);
      std::string d = SH->desc;
      write_trace(fin, pos[1], "# minimised in " + std::to_string(tries) + " tries from " + std::to_string(t.ch.size()) + " choices, " + std::to_string(t.sched.size()) + " schedule points, " + std::to_string(t.faults.size()) + " faults\n# " + esc(d) + "\n");
      printf("%d tries: choices %zu->%zu schedule %zu->%zu faults %zu->%zu kind %s\n", tries, t.ch.size(), fin.ch.size(), t.sched.size(), fin.sched.size(), t.faults.size(), fin.faults.size(), fin.kind.c_str());
      return 0;
    }
    if (o.count("nofork")) {
      g_nofork = true;
    }
    replay_run(*s, t);
    printf("status %d\nkind %s\nhash %llu\nmessage %s\n", SH->status, SH->kind, (unsigned long long)SH->hash, esc(SH->msg).c_str());
    if (o.count("verbose")) printf("%s%s\n", SH->notes, SH->desc);
    return SH->status == 2 ? 1 : SH->status == 1 || SH->status == 3 ? 0 : 2;
  }
  fprintf(stderr, "usage: ldtsim list | run --prop P --seed S ... | replay FILE | shrink FILE OUT\n");
  return 2;
}

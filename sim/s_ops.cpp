// Scenarios over the catalogue of library operations: stale memory (P10), concurrent independent work
// (P02), environment independence (P09), exhausted memory (P11), failing numerical library (P12).
#include "ops.h"
using namespace ops;
using sim::Outcome;

static uint64_t hash_out(const RunResult &r) {
  uint64_t h = 1469598103934665603ULL;
  auto mix = [&](uint64_t x) { h = (h ^ x) * 1099511628211ULL; };
  mix(r.o.ok);
  for (auto &p : r.out.v)
    for (double d : p.second) {
      uint64_t b = 0;
      if (std::isnan(d)) b = 1;
      else memcpy(&b, &d, sizeof b);
      mix(b);
    }
  return h;
}
// result or error, as text, for comparing two lives of one operation
static std::string compare(const RunResult &a, const RunResult &b) {
  if (a.o.ok != b.o.ok)
    return a.o.ok ? "it now fails with '" + b.o.what + "' (" + b.o.kind + ")" : "it now succeeds instead of failing with '" + a.o.what + "'";
  if (!a.o.ok) return "";
  return diff(a.out, b.out);
}
static sim::World quiet(const sim::World &w0) { // the reference environment
  sim::World w = w0;
  w.omp_threads = 1;
  w.policy = sim::P_SERIAL;
  w.rules.clear();
  w.fill = sim::FILL_ZERO;
  w.race_fatal = w.oob_fatal = w.leak_fatal = false;
  w.event_budget = 800000000;
  return w;
}
static double get(const Out &o, const char *nm) {
  for (auto &p : o.v)
    if (p.first == nm && p.second.size()) return p.second[0];
  return 0;
}
// failed iterations may carry another message when a fault hits one that fails anyway
static Out merge_errors(const Out &o) {
  Out r;
  double n = 0;
  for (auto &p : o.v)
    if (p.first.rfind("err:", 0) == 0) n += p.second.empty() ? 0 : p.second[0];
    else r.v.push_back(p);
  r.add("failed", n);
  return r;
}
static uint64_t opkey(const Op &op) { return std::hash<std::string>()(op.name); }
static RunResult solo(Op &op, int variant, const sim::World &w, int fill, uint64_t fs, sim::EndInfo *ei = nullptr) {
  auto c = op.clone();
  sim::begin(w);
  RunResult r = life(*c, variant, fill, fs);
  auto e = sim::end(false);
  if (ei) *ei = e;
  return r;
}

// ------------------------------------------------------------------ P10
SCENARIO("P10", p10_stale_memory, 1) {
  auto op = draw();
  sim::set_prefix(op->describe());
  sim::World w = sim::gen_world(op->omp ? 3 : 1);
  w.event_budget = 800000000;
  int variant = sim::chance(0.75) ? 0 : 2;
  RunResult base = solo(*op, variant, quiet(w), sim::FILL_ZERO, 1);
  sim::observe(hash_out(base));
  int mode = (int)sim::ch(4), fill = 1 + (int)sim::ch(sim::FILL_NKINDS - 1);
  uint64_t fs = sim::chseed();
  w.fill = 1 + (int)sim::ch(sim::FILL_NKINDS - 1);
  w.oob_fatal = true;
  static const char *mn[] = {"fresh object, dirty buffers and memory", "object reused after another calculation", "object reused after a failed calculation", "object reused repeatedly, buffers kept"};
  sim::describe("%s: %s", op->describe().c_str(), mn[mode]);
  RunResult r;
  auto c = op->clone();
  sim::begin(w);
  r.o = sim::sut([&] { c->construct(); });
  if (r.o.ok) {
    Buffers B = buffers_new(*c, fill, fs);
    c->inputs([](const void *p, size_t n, const char *nm) { sim::protect(p, n, nm); });
    Ctx cx{B.b, B.ib};
    std::vector<int> hist;
    if (mode == 1) hist = {1};
    if (mode == 2) hist = {2};
    if (mode == 3) {
      int n = 1 + (int)sim::ch(3);
      for (int i = 0; i < n; i++) hist.push_back((int)sim::ch(3));
    }
    for (int v : hist) {
      Outcome q = sim::sut([&] { c->calc(v, cx); });
      if (!q.ok) sim::probe("an earlier calculation failed");
      if (mode != 3) buffers_refill(B, fill, fs + 7);
    }
    r.o = sim::sut([&] { c->calc(variant, cx); });
    if (r.o.ok) c->collect(r.out);
    sim::sut([&] { c->destroy(); });
    buffers_free(B);
    sim::unprotect_all();
  } else sim::sut([&] { c->destroy(); });
  sim::end(false);
  std::string d = compare(base, r);
  if (!d.empty())
    sim::violate("stale", "%s: %s, %s", op->describe().c_str(), mn[mode], d.c_str());
  sim::observe(mode);
  if (base.o.ok) {
    sim::nontrivial();
    sim::probe(op->name.c_str());
  } else sim::probe((op->name + " fails").c_str());
  sim::state_key(std::hash<std::string>()(op->name) * 8 + mode * 2 + base.o.ok);
}

// ------------------------------------------------------------------ P02
// independent work on several threads: no shared mutable memory, the same bits as alone
SCENARIO("P02", p02_concurrent_ops, 1) {
  int n = sim::chi(2, 4);
  std::vector<std::unique_ptr<Op>> kinds, ops;
  std::vector<int> variant;
  int nk = sim::chance(0.5) ? 1 : sim::chi(1, 2);
  for (int i = 0; i < nk; i++) kinds.push_back(draw());
  std::string all;
  for (int i = 0; i < n; i++) {
    ops.push_back(kinds[i % nk]->clone());
    variant.push_back(sim::chance(0.7) ? 0 : (int)sim::ch(3));
    all += (i ? " + " : "") + ops[i]->describe() + (variant[i] ? "'" : "");
  }
  sim::set_prefix(all);
  int rounds = sim::chi(1, 2);
  sim::World w = sim::gen_world(3);
  w.event_budget = 2000000000ULL;
  std::vector<RunResult> base;
  for (int i = 0; i < n; i++) {
    base.push_back(solo(*ops[i], variant[i], quiet(w), w.fill, 1));
    sim::observe(hash_out(base[i]));
  }
  sim::describe("%d threads, %d rounds: %s", n, rounds, all.c_str());
  w.race_fatal = true;
  std::vector<RunResult> got(n);
  std::vector<Buffers> B(n);
  std::vector<Ctx> X(n);
  sim::begin(w);
  // objects are built by their own thread, buffers (whose size only the object knows) too
  std::vector<std::function<void()>> f;
  for (int i = 0; i < n; i++) {
    Op *op = ops[i].get();
    op->inputs([](const void *p, size_t k, const char *nm) { sim::protect(p, k, nm); });
    f.push_back([op, i, rounds, &B, &X, &variant, &w] {
      op->construct();
      {
        sim::Harness h;
        B[i] = buffers_new(*op, w.fill, 100 + i);
        X[i] = Ctx{B[i].b, B[i].ib};
      }
      for (int r = 0; r < rounds; r++) op->calc(variant[i], X[i]);
    });
  }
  auto o = sim::sut_threads(f);
  for (int i = 0; i < n; i++) {
    got[i].o = o[i];
    if (o[i].ok) ops[i]->collect(got[i].out);
  }
  for (int i = 0; i < n; i++) {
    sim::sut([&] { ops[i]->destroy(); });
    buffers_free(B[i]);
  }
  auto e = sim::end(false);
  int good = 0;
  for (int i = 0; i < n; i++) {
    std::string d = compare(base[i], got[i]);
    if (!d.empty()) sim::violate("concurrent-result", "%s run next to others: %s", ops[i]->describe().c_str(), d.c_str());
    good += base[i].o.ok;
    sim::probe(ops[i]->name.c_str());
  }
  if (good >= 2 && e.switches >= 2) sim::nontrivial();
  sim::state_key(opkey(*ops[0]) * 31 + opkey(*ops[n - 1]) * 7 + n);
}

// ------------------------------------------------------------------ P09
// the same seed in two different environments
SCENARIO("P09", p09_environment, 3) {
  static const std::vector<std::string> names = {"OpSurSim", "OpDcSim", "OpSample", "OpSplit", "OpMix"};
  auto op = draw_named(names[sim::ch(names.size())].c_str());
  sim::set_prefix(op->describe());
  sim::World w = sim::gen_world(1), w2 = sim::gen_world(3);
  w.event_budget = w2.event_budget = 800000000;
  w2.clock_base_ns = (int64_t)(1 + sim::ch(1000000)) * 3600LL * 1000000000LL;
  w2.ns_per_event = sim::chance(0.3) ? 50000 : 20;
  RunResult base = solo(*op, 0, quiet(w), sim::FILL_ZERO, 1);
  sim::observe(hash_out(base));
  int before = (int)sim::ch(3), beside = (int)sim::ch(3);
  sim::describe("%s: again with other entropy, clock, memory, %d earlier and %d concurrent calculations", op->describe().c_str(), before, beside);
  auto c = op->clone();
  std::vector<std::unique_ptr<Op>> others;
  std::vector<int> ov;
  for (int i = 0; i < before + beside; i++) {
    others.push_back(sim::chance(0.5) ? op->clone() : draw_named(names[sim::ch(names.size())].c_str()));
    ov.push_back((int)sim::ch(2));
  }
  int fill = (int)sim::ch(sim::FILL_NKINDS);
  uint64_t fs = sim::chseed();
  RunResult r;
  sim::begin(w2);
  for (int i = 0; i < before; i++) life(*others[i], ov[i], fill, fs + i);
  std::vector<Buffers> B(beside + 1);
  std::vector<Ctx> X(beside + 1);
  std::vector<std::function<void()>> f;
  auto body = [&B, &X, fill, fs](Op *q, int v, int slot) {
    return [q, v, slot, &B, &X, fill, fs] {
      q->construct();
      {
        sim::Harness h;
        B[slot] = buffers_new(*q, fill, fs + 50 + slot);
        X[slot] = Ctx{B[slot].b, B[slot].ib};
      }
      q->calc(v, X[slot]);
    };
  };
  f.push_back(body(c.get(), 0, 0));
  for (int i = 0; i < beside; i++) f.push_back(body(others[before + i].get(), ov[before + i], i + 1));
  auto o = sim::sut_threads(f);
  r.o = o[0];
  if (r.o.ok) c->collect(r.out);
  sim::sut([&] { c->destroy(); });
  for (int i = 0; i < beside; i++) sim::sut([&] { others[before + i]->destroy(); });
  for (auto &b : B) buffers_free(b);
  sim::end(false);
  std::string d = compare(base, r);
  if (!d.empty()) sim::violate("environment", "%s in another environment: %s", op->describe().c_str(), d.c_str());
  if (base.o.ok) sim::nontrivial();
  sim::probe(op->name.c_str());
  sim::state_key(opkey(*op) * 31 + before * 3 + beside);
}

// ------------------------------------------------------------------ P11
SCENARIO("P11", p11_out_of_memory, 1) {
  auto op = draw();
  sim::set_prefix(op->describe());
  sim::World w = sim::gen_world(op->omp ? 3 : 1);
  w.event_budget = 800000000;
  auto q0 = quiet(w);
  sim::EndInfo ei;
  int variant = sim::chance(0.85) ? 0 : 2;
  RunResult base = solo(*op, variant, q0, w.fill, 1, &ei);
  sim::observe(hash_out(base));
  if (ei.live_blocks) sim::violate("leak", "%s leaves memory behind%s: %s", op->describe().c_str(), base.o.ok ? "" : (" (failing with '" + base.o.what + "')").c_str(), ei.first_leak.c_str());
  if (!ei.allocs) sim::discard("no allocation");
  uint64_t at = sim::ch(ei.allocs);
  int how = (int)sim::ch(3); // once, from there on, at random
  sim::FaultRule fr{sim::F_ALLOC, at, how == 0 ? 1ULL : how == 1 ? 1 + sim::ch(6) : (1ULL << 40), 0};
  sim::describe("%s: memory request %llu of %llu fails (%llu in a row)", op->describe().c_str(), (unsigned long long)at, (unsigned long long)ei.allocs, (unsigned long long)fr.len);
  auto wf = w;
  wf.rules.push_back(fr);
  uint64_t f0 = sim::fault_fired(sim::F_ALLOC);
  RunResult r = solo(*op, variant, wf, w.fill, 1, &ei);
  bool fired = sim::fault_fired(sim::F_ALLOC) > f0;
  if (ei.live_blocks) sim::violate("leak", "%s leaves memory behind after memory request %llu failed (%s): %s", op->describe().c_str(), (unsigned long long)at, r.o.ok ? "ok" : r.o.what.c_str(), ei.first_leak.c_str());
  if (!fired && base.o.ok != r.o.ok) sim::violate("unstable", "%s without fault: %s", op->describe().c_str(), compare(base, r).c_str());
  if (r.o.ok && base.o.ok) {
    if (op->sim && get(r.out, "valid") != get(base.out, "valid")) sim::probe("failed inside an iteration");
    else {
      std::string d = diff(merge_errors(base.out), merge_errors(r.out));
      if (!d.empty()) sim::violate("wrong-result", "%s with a failed memory request succeeds with another result: %s", op->describe().c_str(), d.c_str());
    }
    if (fired) sim::probe("request failed, result unchanged");
  } else if (r.o.ok && !base.o.ok) sim::violate("wrong-result", "%s fails normally ('%s') but succeeds when memory request %llu fails", op->describe().c_str(), base.o.what.c_str(), (unsigned long long)at);
  else if (!r.o.ok && base.o.ok) sim::probe(("error: " + r.o.kind).c_str());
  // repeating it with memory available
  RunResult again = solo(*op, variant, q0, w.fill, 1);
  std::string d = compare(base, again);
  if (!d.empty()) sim::violate("after-fault", "%s repeated after the failure: %s", op->describe().c_str(), d.c_str());
  if (fired) sim::nontrivial();
  sim::probe(op->name.c_str());
  sim::state_key(opkey(*op) * 1009 + at);
}
// the same object survives the failure
SCENARIO("P11", p11_same_object, 0.5) {
  auto op = draw();
  sim::set_prefix(op->describe());
  sim::World w = sim::gen_world(op->omp ? 3 : 1);
  w.event_budget = 800000000;
  auto q0 = quiet(w);
  RunResult base = solo(*op, 0, q0, w.fill, 1);
  sim::observe(hash_out(base));
  auto c = op->clone();
  uint64_t at = sim::ch(40);
  int fails = sim::chi(1, 3);
  sim::describe("%s: request %llu of a calculation fails %d times, then the same object is used normally", op->describe().c_str(), (unsigned long long)at, fails);
  RunResult r;
  sim::begin(w);
  r.o = sim::sut([&] { c->construct(); });
  uint64_t f0 = sim::fault_fired(sim::F_ALLOC);
  if (r.o.ok) {
    Buffers B = buffers_new(*c, w.fill, 3);
    c->inputs([](const void *p, size_t k, const char *nm) { sim::protect(p, k, nm); });
    Ctx x{B.b, B.ib};
    for (int i = 0; i < fails; i++) {
      sim::add_rule({sim::F_ALLOC, sim::fault_seen(sim::F_ALLOC) + at, 1, 0});
      sim::sut([&] { c->calc(0, x); });
    }
    bool fired = sim::fault_fired(sim::F_ALLOC) > f0;
    sim::clear_rules();
    r.o = sim::sut([&] { c->calc(0, x); });
    if (r.o.ok) c->collect(r.out);
    sim::sut([&] { c->destroy(); });
    buffers_free(B);
    if (fired) sim::nontrivial();
  } else sim::sut([&] { c->destroy(); });
  auto e = sim::end(false);
  std::string d = compare(base, r);
  if (!d.empty()) sim::violate("after-fault", "%s, same object after %d failed calculations: %s", op->describe().c_str(), fails, d.c_str());
  if (e.live_blocks) sim::violate("leak", "%s leaves memory behind: %s", op->describe().c_str(), e.first_leak.c_str());
  sim::state_key(opkey(*op) * 1013 + at);
}

// ------------------------------------------------------------------ P12
SCENARIO("P12", p12_lapack_failure, 1) {
  std::unique_ptr<Op> op;
  static const std::vector<std::string> names = {"OpSur", "OpSurExt", "OpSurSim", "OpVarma", "OpVarmaExt", "OpVarmaSim", "OpDc", "OpDcExt", "OpDcSim", "OpPca", "OpSvd", "OpLs", "OpMat", "OpSample"};
  op = draw_named(names[sim::ch(names.size())].c_str());
  sim::set_prefix(op->describe());
  sim::World w = sim::gen_world(1);
  w.event_budget = 800000000;
  auto q0 = quiet(w);
  int mode = (int)sim::ch(2); // new object; the same object afterwards
  sim::begin(q0);
  auto c0 = op->clone();
  RunResult base = life(*c0, 0, w.fill, 1);
  if (base.o.ok && !base.cons.empty()) sim::violate("inconsistent-result", "%s: %s", op->describe().c_str(), base.cons.c_str());
  uint64_t calls = sim::fault_seen(sim::F_LAPACK);
  sim::end(false);
  sim::observe(hash_out(base));
  if (!calls) sim::discard("no library routine used");
  uint64_t at = sim::ch(calls), len = sim::chance(0.7) ? 1 : sim::chance(0.5) ? (1ULL << 40) : 2 + sim::ch(4);
  sim::describe("%s: library routine call %llu of %llu fails (%llu in a row)", op->describe().c_str(), (unsigned long long)at, (unsigned long long)calls, (unsigned long long)len);
  auto c = op->clone();
  auto wf = w;
  wf.rules.push_back({sim::F_LAPACK, at, len, 0});
  uint64_t f0 = sim::fault_fired(sim::F_LAPACK);
  RunResult r, again;
  std::string cons;
  sim::failed_lapack_reset();
  sim::begin(wf);
  r.o = sim::sut([&] { c->construct(); });
  if (r.o.ok) {
    Buffers B = buffers_new(*c, w.fill, 3);
    c->inputs([](const void *p, size_t k, const char *nm) { sim::protect(p, k, nm); });
    Ctx x{B.b, B.ib};
    r.o = sim::sut([&] { c->calc(0, x); });
    if (r.o.ok) {
      c->collect(r.out);
      if (c->has_consistency()) cons = c->consistent();
    }
    if (mode) {
      sim::clear_rules();
      again.o = sim::sut([&] { c->calc(0, x); });
      if (again.o.ok) c->collect(again.out);
    }
    sim::sut([&] { c->destroy(); });
    buffers_free(B);
  }
  sim::end(false);
  bool fired = sim::fault_fired(sim::F_LAPACK) > f0;
  if (!mode) again = solo(*op, 0, q0, w.fill, 1);
  std::string d = compare(base, again);
  if (!d.empty()) sim::violate("after-fault", "%s, %s after the failure: %s", op->describe().c_str(), mode ? "the same object" : "repeated", d.c_str());
  if (r.o.ok && !base.o.ok) sim::violate("wrong-result", "%s fails normally ('%s') but succeeds when library routine call %llu fails", op->describe().c_str(), base.o.what.c_str(), (unsigned long long)at);
  if (r.o.ok) {
    // a failure inside the objective changes the path of a search; its end must still be a solution
    bool path = op->optim && op->name.rfind("OpVarma", 0) == 0 && strstr(sim::failed_lapack(), "dpotrf2");
    if (op->sim && (get(r.out, "valid") != get(base.out, "valid") || op->optim)) sim::probe("failed inside an iteration");
    else if (path) {
      if (!cons.empty()) sim::violate("used-failed-result", "%s: library routine call %llu (%s) fails and an inconsistent result is reported: %s", op->describe().c_str(), (unsigned long long)at, sim::last_lapack(), cons.c_str());
      sim::probe("search continued after a missing value");
    } else {
      d = diff(merge_errors(r.out), merge_errors(base.out), op->optim ? 1e-3 : 0, true);
      if (!d.empty()) sim::violate("used-failed-result", "%s: library routine call %llu (%s) fails and a result is reported: %s (end of the search %g, without fault %g)", op->describe().c_str(), (unsigned long long)at, sim::last_lapack(), d.c_str(), get(r.out, "task"), get(base.out, "task"));
      sim::probe("failure handled, result correct or missing");
    }
  } else sim::probe("reported as an error");
  if (fired && base.o.ok) sim::nontrivial();
  sim::probe(op->name.c_str());
  sim::state_key(opkey(*op) * 1009 + at);
}

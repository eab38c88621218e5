// Real searches under a hostile environment: races (P02), entropy and clocks (P09), stale memory (P10),
// exhausted memory (P11), failing numerical library (P12).
#include "real_run.h"
using namespace sim;
using namespace real;

SCENARIO("P02", p02_real, 0.5) {
  real::Search W;
  Opts o;
  o.small = chance(0.7);
  real::gen(W, o);
  W.opt.Parallel = true;
  W.opt.ReportInterval = chance(0.3) ? 1 : 0;
  World w = gen_world(8);
  w.event_budget = 800000000;
  w.race_fatal = true;
  real::describe(W, w);
  prepare(W, w);
  begin(w);
  go(W, w);
  check_full(W, "parallel");
  finish(W, "after the search");
}
SCENARIO("P09", p09_real, 1) {
  real::Search W;
  Opts o;
  o.out = true;
  o.small = chance(0.7);
  real::gen(W, o);
  World w = gen_world(6);
  w.event_budget = 800000000;
  prepare(W, w);
  int lives = chi(1, 2);
  for (int i = 0; i < lives; i++) {
    W.opt.Parallel = chance(0.6);
    World w2 = gen_world(6); // other schedule, random device, clock and memory
    w2.event_budget = 800000000;
    if (!i) real::describe(W, w2);
    begin(w2);
    go(W, w2);
    check_full(W, W.opt.Parallel ? "seeded, parallel" : "seeded, sequential");
    destroy(W);
    unprotect_all();
    end(false);
  }
}
SCENARIO("P10", p10_real, 0.3) {
  real::Search W;
  Opts o;
  o.small = chance(0.7);
  o.trouble = chance(0.3);
  real::gen(W, o);
  W.opt.Parallel = chance(0.5);
  World w = gen_world(3);
  w.event_budget = 800000000;
  w.fill = 1 + (int)ch(FILL_NKINDS - 1);
  w.oob_fatal = true;
  real::describe(W, w);
  prepare(W, w);
  begin(w);
  go(W, w);
  check_full(W, "dirty memory");
  finish(W, "dirty memory");
}
SCENARIO("P11", p11_real, 0.5) {
  real::Search W;
  Opts o;
  o.keepall = true;
  o.small = chance(0.8);
  real::gen(W, o);
  W.opt.Parallel = chance(0.6);
  World w = gen_world(4);
  w.event_budget = 800000000;
  real::describe(W, w);
  prepare(W, w);
  // how many memory requests a search makes
  begin(real::quiet(w));
  go(W, w);
  uint64_t total = fault_seen(F_ALLOC);
  check_full(W, "reference");
  destroy(W);
  unprotect_all();
  end(false);
  uint64_t at = ch(total), len = chance(0.6) ? 1 : chance(0.5) ? 2 + ch(5) : 1ULL << 40;
  describe(", memory request %llu of %llu fails (%llu in a row)", (unsigned long long)at, (unsigned long long)total, (unsigned long long)len);
  long n = (long)W.cands.size();
  w.rules.push_back({F_ALLOC, at, len, 0});
  uint64_t f0 = fault_fired(F_ALLOC);
  begin(w);
  Outcome q = construct(W);
  bool built = q.ok, ran = false;
  if (q.ok) {
    protect_inputs(W);
    q = start(W, w.fill, w.fill_seed + 1);
    ran = q.ok;
    clear_rules();
    if (ran) {
      long faults = (long)(fault_fired(F_ALLOC) - f0);
      Seen s = look(W, "out of memory");
      if (s.info.ExpectedCount != n || s.info.SearchedCount != n) violate("searched-count", "out of memory: %d of %d candidates searched, reference %ld", s.info.SearchedCount, s.info.ExpectedCount, n);
      if ((long)s.of.size() + s.fails != n) violate("conservation", "out of memory: %zu contributing + %ld failed models, but %ld candidates", s.of.size(), s.fails, n);
      long dev = 0;
      std::string first;
      oracle::Agg A;
      bool contrib = false;
      for (size_t i = 0; i < W.cands.size(); i++) {
        auto &c = W.cands[i];
        auto it = s.of.find(ckey(W, c.endo, c.exo, c.extra));
        auto act = it == s.of.end() ? decltype(shown(W, i))() : it->second;
        auto ref = shown(W, i);
        if (same(act, ref)) {
          if (W.alone[i].fail == OK) pool_add(A, W.S, c.endo, c.exo, W.alone[i]);
          continue;
        }
        dev++;
        if (first.empty()) first = ckey(W, c.endo, c.exo, c.extra) + ":" + text(act) + " instead of" + text(ref);
        contrib |= !act.empty();
      }
      if (dev > faults) violate("isolation", "out of memory: %ld requests failed but %ld candidates differ from what they give alone; first %s", faults, dev, first.c_str());
      if (!contrib) wl::check_results(W.ms(), W, A, "out of memory");
      if (dev) probe("models lost for lack of memory", dev);
    } else probe("the search reports lack of memory");
  } else probe("the search cannot be built for lack of memory");
  clear_rules();
  bool fired = fault_fired(F_ALLOC) > f0;
  if (!q.ok && !fired) violate("construct", "the search raised without a reason: %s %s", q.kind.c_str(), q.what.c_str());
  if (!q.ok && q.kind != "bad_alloc" && q.what.find("alloc") == std::string::npos) probe(("reported as: " + q.what).c_str());
  // (emptied options are needed again: copies)
  auto items = W.items; auto met = W.met; auto checks = W.checks; auto comb = W.comb;
  finish(W, !built ? "construction failed" : !ran ? "search failed" : "out of memory");
  W.items = items, W.met = met, W.checks = checks, W.comb = comb;
  // with memory available again everything works
  World w2 = gen_world(3);
  w2.event_budget = 800000000;
  begin(w2);
  go(W, w2);
  check_full(W, "with memory again");
  destroy(W);
  unprotect_all();
  end(false);
  if (fired) nontrivial();
  state_key(at * 7 + W.kind + 3 * (built + ran));
}
SCENARIO("P12", p12_real, 0.5) {
  real::Search W;
  Opts o;
  o.keepall = true;
  o.small = chance(0.8);
  real::gen(W, o);
  W.opt.Parallel = chance(0.5);
  World w = gen_world(4);
  w.event_budget = 800000000;
  real::describe(W, w);
  prepare(W, w);
  begin(real::quiet(w));
  go(W, w);
  uint64_t total = fault_seen(F_LAPACK);
  destroy(W);
  unprotect_all();
  end(false);
  if (!total) discard("no library routine used");
  uint64_t at = ch(total), len = chance(0.6) ? 1 : chance(0.5) ? 2 + ch(9) : 1ULL << 40;
  describe(", library routine call %llu of %llu fails (%llu in a row)", (unsigned long long)at, (unsigned long long)total, (unsigned long long)len);
  w.rules.push_back({F_LAPACK, at, len, 0});
  uint64_t f0 = fault_fired(F_LAPACK);
  begin(w);
  go(W, w);
  clear_rules();
  long faults = (long)(fault_fired(F_LAPACK) - f0), n = (long)W.cands.size();
  Seen s = look(W, "failing routines");
  if (s.info.SearchedCount != n) violate("searched-count", "failing routines: %d of %ld candidates searched", s.info.SearchedCount, n);
  if ((long)s.of.size() + s.fails != n) violate("conservation", "failing routines: %zu contributing + %ld failed models, but %ld candidates", s.of.size(), s.fails, n);
  long dev = 0;
  std::string first;
  int nin = (int)W.S.in.size();
  for (size_t i = 0; i < W.cands.size(); i++) {
    auto &c = W.cands[i];
    auto key = ckey(W, c.endo, c.exo, c.extra);
    auto it = s.of.find(key);
    auto act = it == s.of.end() ? decltype(shown(W, i))() : it->second;
    auto ref = shown(W, i);
    if (same(act, ref)) continue;
    dev++;
    if (first.empty()) first = key + ":" + text(act) + " instead of" + text(ref);
    if (act.empty()) continue;
    // a model that is reported in spite of a failure: its in-sample metrics are the right ones
    bool iterative = W.kind == VARMA && (c.par[2] || c.par[5]); // (a failing point of a search for the maximum is skipped)
    if (!iterative)
      for (auto &p : act)
        if (p.first.first < nin) {
          auto r = ref.find(p.first);
          if (r == ref.end() || !close(r->second.first, p.second.first, 1e-7, 1e-9)) violate("wrong-result", "failing routines: model %s is reported with%s, alone it has%s", key.c_str(), text(act).c_str(), text(ref).c_str());
        }
  }
  if (dev > faults) violate("isolation", "%ld calls failed but %ld candidates differ from what they give alone; first %s", faults, dev, first.c_str());
  finish(W, "failing routines");
  if (faults) nontrivial();
  probe("models changed by a failing routine", dev);
  state_key(at * 7 + W.kind);
}

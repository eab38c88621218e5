// Real searches (regression, discrete choice, VARMA): complete results (P01), failing candidates (P03) and
// cancel requests (P04).
#include "real_run.h"
using namespace sim;
using namespace real;

SCENARIO("P01", p01_real, 1) {
  real::Search W;
  real::gen(W, {});
  W.opt.Parallel = chance(0.8);
  World w = gen_world(8);
  w.event_budget = 800000000;
  real::describe(W, w);
  prepare(W, w);
  begin(w);
  go(W, w);
  check_full(W, W.opt.Parallel ? "parallel" : "sequential");
  finish(W, "after the search");
}

// ------------------------------------------------------------------ P03
SCENARIO("P03", p03_real, 1) {
  real::Search W;
  Opts o;
  o.trouble = true;
  o.keepall = true;
  real::gen(W, o);
  W.opt.Parallel = chance(0.7);
  World w = gen_world(6);
  w.event_budget = 800000000;
  real::describe(W, w);
  prepare(W, w);
  if (chance(0.75)) {
    FaultRule r{F_LAPACK};
    if (chance(0.5)) r.from = ch(60), r.len = 1 + ch(6);
    else r.p = pick(std::vector<double>{0.01, 0.05, 0.2});
    w.rules.push_back(r);
  }
  uint64_t f0 = fault_fired(F_LAPACK);
  begin(w);
  go(W, w);
  clear_rules();
  long faults = (long)(fault_fired(F_LAPACK) - f0), n = (long)W.cands.size();
  const char *ctx = faults ? "with failing routines" : "candidates failing by themselves";
  Seen s = look(W, ctx);
  if (s.info.ExpectedCount != n || s.info.SearchedCount != n) violate("searched-count", "%s: %d of %d candidates searched, reference %ld", ctx, s.info.SearchedCount, s.info.ExpectedCount, n);
  // every candidate either contributes or is counted as failed
  if ((long)s.of.size() + s.fails != n) violate("conservation", "%s: %zu contributing + %ld failed models, but %ld candidates", ctx, s.of.size(), s.fails, n);
  // a failure touches no candidate but its own
  long dev = 0;
  std::string first;
  bool contrib = false;
  oracle::Agg A;
  for (size_t i = 0; i < W.cands.size(); i++) {
    auto &c = W.cands[i];
    auto key = ckey(W, c.endo, c.exo, c.extra);
    auto it = s.of.find(key);
    auto act = it == s.of.end() ? decltype(shown(W, i))() : it->second;
    auto ref = shown(W, i);
    if (same(act, ref)) {
      if (W.alone[i].fail == OK) pool_add(A, W.S, c.endo, c.exo, W.alone[i]);
      continue;
    }
    dev++;
    if (first.empty()) first = key + ":" + text(act) + " instead of" + text(ref) + " " + W.alone[i].msg;
    if (act.empty()) continue;
    contrib = true;
    for (auto &p : act) {
      oracle::Entry e;
      e.metric = p.second.first, e.weight = p.second.second, e.endo = c.endo, e.exo = c.exo, e.extra = c.extra;
      A.pool[p.first].push_back(e);
    }
  }
  if (dev > faults) violate("isolation", "%s: %ld failures were injected but %ld candidates differ from what they give alone; first %s", ctx, faults, dev, first.c_str());
  int l1 = W.items.Length1;
  bool ma = false; // (an iterative estimate may end a little elsewhere: same metrics to many digits, slightly other forecasts)
  for (auto &c : W.cands) ma |= W.kind == VARMA && (c.par[2] || c.par[5]);
  if (contrib || (faults && ma)) unprotect_all(), W.items.Length1 = 0; // (the list of all models does not tell the items of the deviating ones)
  wl::check_results(W.ms(), W, A, ctx);
  W.items.Length1 = l1;
  if (!faults) {
    Expect E = expect(W);
    wl::check_failures(s.info, E.named, E.unnamed, E.nanf, ctx);
  }
  probe("candidates", n);
  probe("candidates that fail", s.fails);
  if (faults) probe("candidates changed by an injected failure", dev);
  state_key(n * 131 + s.fails * 7 + dev * 1009 + W.kind * 100003);
  if (s.fails && !s.of.empty()) nontrivial();
  finish(W, ctx);
}

// ------------------------------------------------------------------ P04
SCENARIO("P04", p04_real, 1) {
  real::Search W;
  Opts o;
  o.keepall = true;
  o.trouble = chance(0.3);
  real::gen(W, o);
  W.opt.Parallel = chance(0.7);
  World w = gen_world(6);
  w.event_budget = 800000000;
  real::describe(W, w);
  uint64_t total = prepare(W, w);
  bool before = chance(0.05);
  uint64_t ev = (uint64_t)(chreal() * 1.15 * total);
  bool cancelled = false;
  auto cancel = [&] {
    cancelled = true;
    W.opt.RequestCancel = true;
    fault_mark(F_CANCEL);
  };
  begin(w);
  benign(&W.opt.RequestCancel, 1);
  Outcome q = construct(W);
  if (!q.ok) violate("construct", "constructing the search failed: %s %s", q.kind.c_str(), q.what.c_str());
  if (before) cancel();
  else at_event(events_now() + ev, cancel);
  protect_inputs(W);
  q = start(W, w.fill, w.fill_seed + 1);
  if (!q.ok) violate("start", "the search raised: %s %s", q.kind.c_str(), q.what.c_str());
  long n = (long)W.cands.size();
  Seen s = look(W, "cancelled");
  if (s.info.ExpectedCount != n) violate("expected-count", "expected count %d, reference %ld", s.info.ExpectedCount, n);
  if (s.info.SearchedCount > n) violate("searched-count", "searched count %d of %ld", s.info.SearchedCount, n);
  if (before && s.info.SearchedCount) violate("cancel-ignored", "%d candidates were estimated although the search was cancelled before its start", s.info.SearchedCount);
  if (!cancelled && s.info.SearchedCount != n) violate("searched-count", "not cancelled, but %d of %ld candidates searched", s.info.SearchedCount, n);
  if ((long)s.of.size() + s.fails != s.info.SearchedCount) violate("conservation", "%zu contributing + %ld failed models, but %d searched", s.of.size(), s.fails, s.info.SearchedCount);
  oracle::Agg A;
  for (size_t i = 0; i < W.cands.size(); i++) {
    auto &c = W.cands[i];
    auto key = ckey(W, c.endo, c.exo, c.extra);
    auto it = s.of.find(key);
    if (it == s.of.end()) continue;
    auto ref = shown(W, i);
    if (!same(it->second, ref)) violate("cancel-partial", "a model that did not complete normally is in the result: %s:%s instead of%s", key.c_str(), text(it->second).c_str(), text(ref).c_str());
    pool_add(A, W.S, c.endo, c.exo, W.alone[i]);
  }
  wl::check_results(W.ms(), W, A, "cancelled");
  bool partial = s.info.SearchedCount < n && !s.of.empty();
  if (cancelled) probe(partial ? "stopped in the middle" : s.info.SearchedCount == n ? "stopped in the last models" : "stopped at once");
  else probe("cancel_not_reached");
  int searched = s.info.SearchedCount;
  destroy(W);
  unprotect_all();
  end(false);
  // the data and options remain usable: a new search is complete and correct
  W.opt.RequestCancel = false;
  World w2 = gen_world(4);
  w2.event_budget = 800000000;
  begin(w2);
  go(W, w2);
  check_full(W, "after cancel");
  finish(W, "after cancel");
  describe(" cancel at event %llu", (unsigned long long)(before ? 0 : ev));
  state_key((before ? 1 : 0) * 100000 + searched * 100 + n + W.kind * 1000003);
}

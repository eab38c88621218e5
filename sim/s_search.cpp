// Scripted searches: P01 (schedule independence), P03 (failure isolation), P04 (cancel).
#include "wl_script.h"
using namespace sim;
using namespace wl;

static void check_full(Search &W, Run &R, const char *ctx) {
  // every admissible candidate exactly once
  Ref ref = wl::enumerate(W);
  std::map<std::string, int> want;
  for (auto &c : ref.cands) want[key(c.first, c.second)]++;
  for (auto &w : want) {
    auto it = W.S.evaluated.find(w.first);
    int n = it == W.S.evaluated.end() ? 0 : it->second;
    if (n != w.second) violate("enumeration", "%s: candidate %s evaluated %d times, expected %d", ctx, w.first.c_str(), n, w.second);
  }
  for (auto &e : W.S.evaluated)
    if (!want.count(e.first)) violate("enumeration", "%s: inadmissible candidate %s evaluated", ctx, e.first.c_str());
  oracle::Agg A;
  std::map<std::string, long> named;
  long unnamed = 0, nanf = 0, okc = 0;
  for (auto &c : ref.cands) {
    Result o = outcome(W.S, c.first, c.second);
    if (o.fail == OK) {
      okc++;
      pool_add(A, W.S, c.first, c.second, o);
    } else if (o.fail == ALLNAN) nanf++;
    else if (o.fail == INT) unnamed++;
    else named[o.msg]++;
  }
  SearcherModelingInfo info;
  std::vector<SearcherSummary *> a, b, c;
  R.ms->CombineInfo(info, a, b, c);
  if (info.ExpectedCount != ref.expected) violate("expected-count", "%s: expected count %d, reference %ld", ctx, info.ExpectedCount, ref.expected);
  if (info.SearchedCount != ref.expected) violate("searched-count", "%s: searched count %d, reference %ld", ctx, info.SearchedCount, ref.expected);
  check_failures(info, named, unnamed, nanf, ctx);
  check_results(*R.ms, W, A, ctx);
  probe("candidates", ref.cands.size());
  probe("candidates_failed", ref.cands.size() - okc);
  state_key(ref.cands.size() * 131 + okc * 7 + W.plan.size());
  if (ref.cands.size() >= 3 && W.plan.size() >= 2) nontrivial();
}
static void describe_search(Search &W, World &w) {
  describe("%s search, %d threads, policy %d, %zu searchers, %d endogenous (%d targets), %d exogenous, %zu partitions (%d fixed), sizes %s, metrics", W.opt.Parallel ? "parallel" : "sequential", w.omp_threads, w.policy, W.plan.size(), W.S.nEndo, W.S.targets, W.S.nExo, W.comb.Partitions.size(), W.comb.NumFixPartitions, oracle::vs(W.comb.Sizes).c_str());
  for (int i = 0; i < W.S.nmet(); i++) describe(" %s", W.S.name(i).c_str());
}
static void run_full(bool failures) {
  Search W;
  gen(W, failures);
  W.opt.Parallel = chance(0.8);
  World w = gen_world(8);
  Run R;
  begin(w);
  protect_inputs(W);
  Outcome o = construct(W, R);
  if (!o.ok) violate("construct", "constructing the search failed: %s %s", o.kind.c_str(), o.what.c_str());
  o = start(W, R, w.fill, w.fill_seed + 1);
  if (!o.ok) violate("start", "the search raised: %s %s", o.kind.c_str(), o.what.c_str());
  check_full(W, R, W.opt.Parallel ? "parallel" : "sequential");
  destroy(R);
  EndInfo e = end();
  if (e.live_blocks) violate("leak", "memory of the search is not released: %s", e.first_leak.c_str());
  describe_search(W, w);
}
SCENARIO("P01", p01_scripted, 1) { run_full(false); }
SCENARIO("P03", p03_scripted, 1) { run_full(true); }

// ---- cancellation
SCENARIO("P04", p04_scripted, 1) {
  Search W;
  gen(W, chance(0.3));
  W.opt.Parallel = chance(0.7);
  World w = gen_world(6);
  Ref ref = wl::enumerate(W);
  // where: before start, after n-th candidate start, or at an event
  int how = (int)ch(4);
  uint64_t nth = ch(ref.cands.size() + 2), ev = ch(20000);
  bool cancelled = false;
  uint64_t started = 0;
  std::map<int, int> afterByThread; // candidates started after the request, per thread
  std::map<int, int> inHand;        // thread had a candidate in hand at the request
  std::set<std::string> startedSet;
  auto cancel = [&] {
    if (cancelled) return;
    cancelled = true;
    W.opt.RequestCancel = true;
    fault_mark(F_CANCEL);
    probe("cancel_requests");
  };
  W.S.onEval = [&](const std::string &k) {
    started++;
    if (cancelled) afterByThread[cur_tid()]++;
    else startedSet.insert(k);
    if (how == 1 && started == nth) cancel();
  };
  W.S.cancelFlag = &W.opt.RequestCancel;
  Run R;
  begin(w);
  benign(&W.opt.RequestCancel, 1);
  Outcome o = construct(W, R);
  if (!o.ok) violate("construct", "constructing the search failed: %s %s", o.kind.c_str(), o.what.c_str());
  if (how == 0) cancel();
  if (how >= 2) at_event(ev, cancel);
  protect_inputs(W);
  o = start(W, R, w.fill, w.fill_seed + 1);
  if (!o.ok) violate("start", "the search raised: %s %s", o.kind.c_str(), o.what.c_str());
  if (!cancelled && how != 0) probe("cancel_not_reached");
  for (auto &a : afterByThread)
    if (a.second > 1) violate("cancel-ignored", "thread %d started %d candidates after the cancel request", a.first, a.second);
  if (how == 0 && started) violate("cancel-ignored", "%llu candidates were started although the search was cancelled before its start", (unsigned long long)started);
  // partial result: consistent
  for (auto &e : W.S.evaluated) {
    if (!ref.byKey.count(e.first)) violate("enumeration", "inadmissible candidate %s evaluated", e.first.c_str());
    if (e.second > 1) violate("enumeration", "candidate %s evaluated %d times", e.first.c_str(), e.second);
  }
  SearcherModelingInfo info;
  {
    std::vector<SearcherSummary *> a, b, c;
    R.ms->CombineInfo(info, a, b, c);
    if (info.ExpectedCount != ref.expected) violate("expected-count", "expected count %d, reference %ld", info.ExpectedCount, ref.expected);
    if (info.SearchedCount > ref.expected || info.SearchedCount < 0) violate("searched-count", "searched count %d of %ld", info.SearchedCount, ref.expected);
    // every candidate that contributed must have been evaluated and completed normally, with its own values
    long pushed = 0, fails = 0;
    for (auto &f : info.FailsCount) fails += f.second;
    std::map<std::string, int> contributors;
    for (int i = 0; i < W.S.nmet(); i++)
      for (int t = 0; t < W.S.targets; t++) {
        auto checkList = [&](std::vector<std::shared_ptr<EstimationKeep>> &l, bool all) {
          std::map<std::string, int> seen;
          for (auto &k : l) {
            auto kk = key(k->Endogenous, k->Exogenouses);
            if (!W.S.evaluated.count(kk)) violate("cancel-phantom", "a model that was never evaluated is in the result: %s", kk.c_str());
            Result o = outcome(W.S, k->Endogenous, k->Exogenouses);
            auto tt = targets_of(k->Endogenous, W.S.targets);
            bool ok = o.fail == OK;
            if (ok) {
              ok = false;
              for (size_t j = 0; j < tt.size(); j++)
                if (tt[j] == t && oracle::close(o.metric[i][j], k->Metric)) ok = true;
            }
            if (!ok) violate("cancel-partial", "a model that did not complete normally is in the result: %s metric %.10g", kk.c_str(), k->Metric);
            if (++seen[kk] > 1) violate("cancel-duplicate", "model %s appears twice", kk.c_str());
            contributors[kk] = 1;
          }
        };
        if (W.items.KeepModelEvaluations) {
          if (W.items.KeepAll) {
            std::vector<std::shared_ptr<EstimationKeep>> l;
            R.ms->CombineAll(i, t, 0, a, l);
            checkList(l, true);
          }
          if (W.items.KeepBestCount > 0) {
            std::vector<std::shared_ptr<EstimationKeep>> l;
            R.ms->CombineBests(i, t, 0, a, l);
            if ((int)l.size() > W.items.KeepBestCount) violate("best-count", "%zu best models, at most %d requested", l.size(), W.items.KeepBestCount);
            checkList(l, false);
          }
        }
      }
    pushed = (long)contributors.size();
    if (fails > info.SearchedCount) violate("failure-count", "%ld failures in %d searched models", fails, info.SearchedCount);
    if (pushed + fails > info.SearchedCount) violate("conservation", "%ld contributing + %ld failed models exceed %d searched models", pushed, fails, info.SearchedCount);
    if (W.items.KeepAll && pushed + fails != info.SearchedCount) violate("conservation", "%ld contributing + %ld failed models, but %d searched", pushed, fails, info.SearchedCount);
    long ev = 0;
    for (auto &e : W.S.evaluated) ev += e.second;
    // a worker may count the candidate it was about to start, none otherwise
    long slack = how == 0 || !cancelled ? 0 : std::min<long>(W.opt.Parallel ? w.omp_threads : 1, (long)W.plan.size()) - (how == 1 ? 1 : 0);
    if (info.SearchedCount < ev || info.SearchedCount > ev + slack) violate("searched-count", "searched count %d but %ld candidates were evaluated", info.SearchedCount, ev);
  }
  destroy(R);
  // the data and options remain usable: a new, uncancelled search is complete and correct
  W.opt.RequestCancel = false;
  W.S.onEval = nullptr;
  W.S.cancelFlag = nullptr;
  W.S.evaluated.clear();
  end();
  World w2 = gen_world(4);
  begin(w2);
  o = construct(W, R);
  if (o.ok) o = start(W, R, w2.fill, w2.fill_seed);
  if (!o.ok) violate("rerun", "a new search after a cancelled one raised: %s %s", o.kind.c_str(), o.what.c_str());
  check_full(W, R, "after cancel");
  destroy(R);
  EndInfo e = end();
  if (e.live_blocks) violate("leak", "memory of the search is not released: %s", e.first_leak.c_str());
  describe_search(W, w);
  describe(" cancel mode %d at candidate %llu / event %llu", how, (unsigned long long)nth, (unsigned long long)ev);
  state_key(how * 100000 + info.SearchedCount * 100 + (int)ref.cands.size());
}

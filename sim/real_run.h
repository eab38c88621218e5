// Running real searches and comparing them with their candidates alone.
#pragma once
#include "real.h"
namespace real {
using namespace sim;
using oracle::close;
using wl::OK;
using wl::pool_add;
inline uint64_t prepare(real::Search &W, const World &w) { // the options as a search completes them, then every candidate alone
  begin(real::quiet(w));
  Outcome o = construct(W);
  if (!o.ok) violate("construct", "constructing the search failed: %s %s", o.kind.c_str(), o.what.c_str());
  destroy(W);
  end(false);
  return evaluate_alone(W, w);
}
inline void go(real::Search &W, const World &w) {
  Outcome o = construct(W);
  if (!o.ok) violate("construct", "constructing the search failed: %s %s", o.kind.c_str(), o.what.c_str());
  protect_inputs(W);
  o = start(W, w.fill, w.fill_seed + 1);
  if (!o.ok) violate("start", "the search raised: %s %s", o.kind.c_str(), o.what.c_str());
}
inline void finish(real::Search &W, const char *ctx) { // everything is released (the options belong to the caller: emptied first)
  destroy(W);
  unprotect_all();
  sut([&] {
    W.items = SearchItems();
    W.met = SearchMetricOptions();
    W.checks = SearchModelChecks();
    W.comb = SearchCombinations();
  });
  EndInfo e = end();
  if (e.live_blocks) violate("leak", "%s: memory of the search is not released: %s", ctx, e.first_leak.c_str());
}
struct Expect {
  oracle::Agg A;
  std::map<std::string, long> named;
  long unnamed = 0, nanf = 0, okc = 0;
};
inline Expect expect(real::Search &W) {
  Expect E;
  bool shorter = false; // (messages of failing time-series models depend on the length of the whole sample)
  if (W.kind == VARMA)
    for (int i = 0; i < W.rows - W.future; i++)
      for (int c = 0; c < W.cols; c++) shorter |= std::isnan(W.at(i, c));
  for (size_t i = 0; i < W.cands.size(); i++) {
    auto &c = W.cands[i];
    auto &o = W.alone[i];
    if (o.fail == OK) {
      E.okc++;
      pool_add(E.A, W.S, c.endo, c.exo, o);
    } else if (o.fail == wl::ALLNAN) E.nanf++;
    else if (o.fail == wl::INT) E.unnamed++;
    else if (shorter) E.unnamed++;
    else E.named[o.msg]++;
  }
  return E;
}
inline void check_full(real::Search &W, const char *ctx) {
  Expect E = expect(W);
  SearcherModelingInfo info;
  std::vector<SearcherSummary *> a, b, c;
  W.ms().CombineInfo(info, a, b, c);
  long n = (long)W.cands.size();
  if (info.ExpectedCount != n) violate("expected-count", "%s: expected count %d, reference %ld", ctx, info.ExpectedCount, n);
  if (info.SearchedCount != n) violate("searched-count", "%s: searched count %d, reference %ld", ctx, info.SearchedCount, n);
  if (getenv("REAL_DEBUG")) {
    for (size_t i = 0; i < W.cands.size(); i++) {
      auto &q = W.alone[i];
      fprintf(stderr, "cand %s fail %d %s:", ckey(W, W.cands[i].endo, W.cands[i].exo, W.cands[i].extra).c_str(), (int)q.fail, q.msg.c_str());
      for (auto &m : q.metric) for (double v : m) fprintf(stderr, " %.10g", v);
      fprintf(stderr, "\n");
    }
    for (auto &f : info.FailsCount) fprintf(stderr, "failed %d: %s\n", f.second, f.first.c_str());
  }
  wl::check_results(W.ms(), W, E.A, ctx);
  wl::check_failures(info, E.named, E.unnamed, E.nanf, ctx);
  probe((std::string("candidates of a search: ") + kname(W.kind)).c_str(), n);
  if (n > E.okc) probe((std::string("candidates failing by themselves: ") + kname(W.kind)).c_str(), n - E.okc);
  state_key(n * 131 + E.okc * 7 + W.kind * 100003);
  if (n >= 2 && E.okc) nontrivial();
}
// ---- what a search reports about single candidates (all models must be kept)
struct Seen {
  std::map<std::string, std::map<std::pair<int, int>, std::pair<double, double>>> of; // candidate -> (metric, target) -> metric, weight
  long fails = 0;
  SearcherModelingInfo info;
};
inline Seen look(real::Search &W, const char *ctx) {
  Seen s;
  std::vector<SearcherSummary *> a, b, c;
  W.ms().CombineInfo(s.info, a, b, c);
  for (auto &f : s.info.FailsCount) s.fails += f.second;
  std::set<std::string> known;
  for (auto &k : W.cands) known.insert(ckey(W, k.endo, k.exo, k.extra));
  for (int i = 0; i < W.S.nmet(); i++)
    for (int t = 0; t < W.S.targets; t++) {
      std::vector<std::shared_ptr<EstimationKeep>> l;
      W.ms().CombineAll(i, t, 0, a, l);
      for (auto &k : l) {
        auto kk = ckey(W, k->Endogenous, k->Exogenouses, k->Extra);
        if (!known.count(kk)) violate("phantom", "%s: a model that is no candidate is in the result: %s", ctx, kk.c_str());
        auto &m = s.of[kk];
        if (m.count({i, t})) violate("duplicate", "%s: model %s appears twice for metric %s target %d", ctx, kk.c_str(), W.S.name(i).c_str(), t);
        m[{i, t}] = {k->Metric, k->Weight};
      }
    }
  return s;
}
// what a candidate reports, as the search should show it
inline std::map<std::pair<int, int>, std::pair<double, double>> shown(real::Search &W, size_t i) {
  std::map<std::pair<int, int>, std::pair<double, double>> r;
  if (W.alone[i].fail != OK) return r;
  oracle::Agg A;
  pool_add(A, W.S, W.cands[i].endo, W.cands[i].exo, W.alone[i]);
  for (auto &p : A.pool) r[p.first] = {p.second[0].metric, p.second[0].weight};
  return r;
}
inline bool same(const std::map<std::pair<int, int>, std::pair<double, double>> &a, const std::map<std::pair<int, int>, std::pair<double, double>> &b) {
  if (a.size() != b.size()) return false;
  for (auto &p : a) {
    auto q = b.find(p.first);
    if (q == b.end() || !close(p.second.first, q->second.first, 1e-9, 1e-12) || !close(p.second.second, q->second.second, 1e-9, 1e-300)) return false;
  }
  return true;
}
inline std::string text(const std::map<std::pair<int, int>, std::pair<double, double>> &a) {
  std::string s;
  char b[80];
  for (auto &p : a) snprintf(b, sizeof b, " [%d,%d]=%.10g", p.first.first, p.first.second, p.second.first), s += b;
  return s.empty() ? " nothing" : s;
}

} // namespace real

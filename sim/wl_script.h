// Workload: a model search over scripted candidates (the search engine is real code,
// the per-candidate estimation is a scripted, deterministic stand-in).
#pragma once
#include "ldt_all.h"
#include "oracle.h"
#include "rt.h"
#include <memory>
using namespace ldt;
namespace wl {
using oracle::VI;
enum Fail { OK = 0, ERRTEXT, STDEXC, STRING, CSTR, INT, ALLNAN, BADALLOC, NFAIL };

struct Script {
  uint64_t seed = 1;
  bool innerExo = false;
  int nEndo = 1, nExo = 1, targets = 1;
  bool hasWeight = false;
  std::vector<std::string> in, out;
  int len1 = 0, extraLen = 0;
  double pFail = 0, pNaN = 0, pNaNCoef = 0;
  int range = 0; // metric range kind
  std::map<std::string, std::vector<double>> minMetric;
  // observation of what ran
  mutable std::map<std::string, int> evaluated;
  mutable std::vector<std::string> startedAfterCancel;
  std::function<void(const std::string &)> onEval;
  const bool *cancelFlag = nullptr; // set: half of the estimations stop early when they see the request
  int nmet() const { return (int)(in.size() + out.size()); }
  std::string name(int i) const { return i < (int)in.size() ? in[i] : out[i - in.size()]; }
};
struct Result {
  Fail fail = OK;
  std::string msg;
  std::vector<std::vector<double>> metric; // [metric][target position]
  std::vector<std::vector<double>> mean, var; // [item][target position]
  VI extra;
};
inline std::string key(const VI &endo, const VI &exo) { return oracle::vs(endo) + "|" + oracle::vs(exo); }
inline VI targets_of(const VI &endo, int targets) {
  VI t;
  for (int e : endo)
    if (e < targets) t.push_back(e);
  return t;
}
inline uint64_t hash_of(const VI &endo, const VI &exo) {
  uint64_t h = 5;
  for (int e : endo) h = h * 1000003 + e + 7;
  for (int e : exo) h = h * 1000003 + e + 13;
  return sim::Rng(h).next() >> 20;
}
// pure function of (script, candidate)
inline Result outcome(const Script &s, const VI &endo, const VI &exo) {
  uint64_t h = s.seed;
  for (int e : endo) h = h * 1000003 + e + 7;
  h = h * 31 + 1;
  for (int e : exo) h = h * 1000003 + e + 13;
  sim::Rng r(h);
  Result o;
  auto t = targets_of(endo, s.targets);
  double u = r.real();
  if (u < s.pFail) {
    o.fail = (Fail)(1 + r.u(NFAIL - 1));
    int k = (int)r.u(3);
    o.msg = o.fail == ERRTEXT ? "script error " + std::to_string(k) : o.fail == STDEXC ? "script exception " + std::to_string(k) : o.fail == STRING ? "script string " + std::to_string(k) : o.fail == CSTR ? "script text" : o.fail == BADALLOC ? "std::bad_alloc" : "?";
  }
  for (int i = 0; i < s.nmet(); i++) {
    std::vector<double> row;
    auto nm = s.name(i);
    for (size_t j = 0; j < t.size(); j++) {
      double v;
      double z = r.real();
      if (oracle::positive(nm) || nm.rfind("frequencyCost", 0) == 0) v = z;
      else if (s.range == 0) v = std::floor(z * 40) / 4;          // many ties
      else if (s.range == 1) v = z * 60 - 20;
      else if (s.range == 2) v = r.real() < 0.5 ? z * 30 : (nm == "mape" || nm == "rmspe" ? 160000 : 1600) + z * 300; // weights underflow
      else v = (nm == "mape" || nm == "rmspe" ? 160000 : 1600) + z * 300;
      if (s.range == 2 && oracle::positive(nm) && r.real() < 0.3) v = 0;
      if (s.range == 2 && nm.rfind("frequencyCost", 0) == 0 && r.real() < 0.3) v = 1;
      if (r.real() < s.pNaN || o.fail == ALLNAN) v = NAN;
      row.push_back(v);
    }
    o.metric.push_back(row);
  }
  bool any = false;
  for (auto &row : o.metric)
    for (double v : row) any |= !std::isnan(v);
  if (o.fail == OK && !any) o.fail = ALLNAN;
  double shift = s.range == 1 ? -50 : 0;
  for (int k = 0; k < s.len1; k++) {
    std::vector<double> a, b;
    for (size_t j = 0; j < t.size(); j++) {
      a.push_back(r.real() < s.pNaNCoef ? NAN : shift + (r.real() - 0.5) * 10);
      b.push_back(0.01 + r.real() * 4);
    }
    o.mean.push_back(a);
    o.var.push_back(b);
  }
  for (int k = 0; k < s.extraLen; k++) o.extra.push_back((int)r.u(5));
  return o;
}

struct ScriptSearcher : public SearcherReg {
  const Script *S;
  ScriptSearcher(const Script *s, const SearchData &d, const SearchCombinations &c, SearchOptions &o, const SearchItems &it, const SearchMetricOptions &m, const SearchModelChecks &ck, int k, const std::vector<Ti> &inner)
      : SearcherReg(d, c, o, it, m, ck, k, s->innerExo, inner, s->extraLen), S(s) {}
  std::string EstimateOneReg(Tv *work, Ti *workI, VMatrix<Tv> &metrics, VMatrix<Tv> &m1, VMatrix<Tv> &v1, VMatrix<Ti> &extra) override {
    for (Ti i = 0; i < WorkSize; i++) work[i] = i * 0.5; // all of the declared work
    for (Ti i = 0; i < WorkSizeI; i++) workI[i] = i;
    // which variables? from the column indices (as real estimators do)
    Result *o;
    VI *endo, *exo;
    {
      sim::Harness h;
      endo = new VI;
      exo = new VI;
      int w = S->hasWeight ? 1 : 0;
      for (int c : ColIndices) {
        if (c < S->nEndo) endo->push_back(c);
        else if (w && c == S->nEndo) {
        } else exo->push_back(c - w);
      }
      o = new Result(outcome(*S, *endo, *exo));
      S->evaluated[key(*endo, *exo)]++;
      if (S->onEval) S->onEval(key(*endo, *exo));
    }
    sim::yield_point();
    // outputs (also for failing candidates: a failing estimation may leave anything behind)
    for (size_t i = 0; i < o->metric.size(); i++)
      for (size_t j = 0; j < o->metric[i].size(); j++) metrics.Mat.Set0((Ti)i, (Ti)j, o->fail == OK || o->fail == ALLNAN ? o->metric[i][j] : -999.0);
    sim::yield_point();
    if (S->cancelFlag && o->fail == OK && (hash_of(*endo, *exo) & 1)) { // e.g. a simulation that breaks out of its loop
      for (int q = 0; q < 30 && !*S->cancelFlag; q++) sim::yield_point();
      if (*S->cancelFlag) {
        sim::Harness h;
        for (size_t i = 0; i < o->metric.size(); i++)
          for (size_t j = 0; j < o->metric[i].size(); j++) metrics.Mat.Set0((Ti)i, (Ti)j, -999.0);
        sim::probe("estimations_interrupted");
        delete o;
        delete endo;
        delete exo;
        return "";
      }
    }
    for (size_t k = 0; k < o->mean.size(); k++)
      for (size_t j = 0; j < o->mean[k].size(); j++) {
        m1.Mat.Set0((Ti)k, (Ti)j, o->mean[k][j]);
        v1.Mat.Set0((Ti)k, (Ti)j, o->var[k][j]);
      }
    for (size_t k = 0; k < o->extra.size(); k++) extra.Mat.Data[k] = o->extra[k];
    sim::yield_point();
    Fail f = o->fail;
    std::string msg = o->msg;
    {
      sim::Harness h;
      delete o;
      delete endo;
      delete exo;
      if (f != OK) sim::fault_mark(sim::F_SCRIPT);
      if (f != OK) sim::probe((std::string("script_fail_") + std::to_string((int)f)).c_str());
    }
    switch (f) {
    case ERRTEXT: return msg;
    case STDEXC: throw std::logic_error(msg);
    case STRING: throw std::string(msg);
    case CSTR: throw "script text";
    case INT: throw 42;
    case BADALLOC: throw std::bad_alloc();
    default: return "";
    }
  }
};

struct Search { // everything a search needs, alive during it
  Script S;
  SearchData data;
  SearchCombinations comb;
  SearchOptions opt;
  SearchItems items;
  SearchMetricOptions met;
  SearchModelChecks checks;
  std::vector<double> raw;
  std::vector<std::pair<int, VI>> plan; // (size, inner)
  bool shuffle = true;
  int workSize = 0, workSizeI = 0;
};
// metric enum from name, independent of the library's parser
inline GoodnessOfFitType gof(const std::string &s) {
  return s == "aic" ? GoodnessOfFitType::kAic : s == "sic" ? GoodnessOfFitType::kSic : s == "frequencyCostIn" ? GoodnessOfFitType::kFrequencyCost : s == "aucIn" ? GoodnessOfFitType::kAuc : GoodnessOfFitType::kBrier;
}
inline ScoringType scr(const std::string &s) {
  return s == "direction" ? ScoringType::kDirection : s == "sign" ? ScoringType::kSign : s == "mae" ? ScoringType::kMae : s == "mape" ? ScoringType::kMape : s == "rmse" ? ScoringType::kRmse : s == "rmspe" ? ScoringType::kRmspe : s == "crps" ? ScoringType::kCrps : s == "frequencyCostOut" ? ScoringType::kFrequencyCost : s == "aucOut" ? ScoringType::kAuc : ScoringType::kBrier;
}
inline void gen_metrics(Script &S, SearchMetricOptions &m, bool mins) {
  std::vector<std::string> ins = {"aic", "sic", "frequencyCostIn", "aucIn", "brierIn"};
  std::vector<std::string> outs = {"rmse", "mae", "mape", "rmspe", "sign", "direction", "crps", "frequencyCostOut", "aucOut", "brierOut"};
  int ni = sim::chi(0, 2), no = sim::chi(0, 2);
  if (ni + no == 0) ni = 1;
  auto take = [&](std::vector<std::string> &from) {
    size_t i = sim::ch(from.size());
    auto s = from[i];
    from.erase(from.begin() + i);
    return s;
  };
  for (int i = 0; i < ni; i++) S.in.push_back(take(ins));
  for (int i = 0; i < no; i++) S.out.push_back(take(outs));
  for (auto &s : S.in) m.MetricsIn.push_back(gof(s));
  for (auto &s : S.out) m.MetricsOut.push_back(scr(s));
  m.SimFixSize = no ? 5 : 0;
  m.TrainFixSize = 3;
  m.TrainRatio = 0;
  m.Seed = 123;
  if (mins)
    for (int i = 0; i < S.nmet(); i++)
      if (sim::chance(0.6)) {
        std::vector<double> v;
        for (int t = 0; t < S.targets; t++) v.push_back((sim::chi(0, 20) - 5) * 0.5);
        S.minMetric[S.name(i)] = v;
        if (i < (int)S.in.size()) m.MinMetricIn[gof(S.name(i))] = v;
        else m.MinMetricOut[scr(S.name(i))] = v;
      }
  m.Update(true, false);
}
// consecutive groups of [lo,hi), some singletons
inline std::vector<VI> groups(int lo, int hi, int maxsz) {
  std::vector<VI> g;
  while (lo < hi) {
    int k = sim::chi(1, std::min(maxsz, hi - lo));
    VI v;
    for (int i = 0; i < k; i++) v.push_back(lo++);
    g.push_back(v);
  }
  return g;
}
inline void gen(Search &W, bool failures) {
  using namespace sim;
  Script &S = W.S;
  S.seed = chseed();
  S.innerExo = chance(0.4);
  S.nEndo = chi(1, S.innerExo ? 6 : 4);
  S.nExo = chi(S.innerExo ? 0 : 2, S.innerExo ? 4 : 7);
  S.targets = chi(1, S.nEndo);
  S.hasWeight = chance(0.25);
  S.len1 = chance(0.6) ? chi(1, 4) : 0;
  S.extraLen = chance(0.3) ? chi(1, 3) : 0;
  S.range = (int)ch(4);
  S.pNaN = chance(0.3) ? 0.25 : 0;
  S.pNaNCoef = chance(0.5) ? 0.3 : 0;
  S.pFail = failures ? pick(std::vector<double>{0.3, 0.1, 0.7}) : 0;
  gen_metrics(S, W.met, chance(0.5));
  // data
  int cols = S.nEndo + (S.hasWeight ? 1 : 0) + S.nExo, rows = 6;
  W.raw.assign((size_t)cols * rows, 1.0);
  Rng r(S.seed);
  for (auto &x : W.raw) x = r.real();
  W.data.Data = Matrix<Tv>(W.raw.data(), rows, cols);
  W.data.NumEndo = S.nEndo;
  W.data.NumExo = S.nExo;
  W.data.HasIntercept = false;
  W.data.HasWeight = S.hasWeight;
  // combinations
  int lo = S.innerExo ? 0 : S.nEndo, hi = S.innerExo ? S.nEndo : S.nEndo + S.nExo;
  W.comb.Partitions = groups(lo, hi, 3);
  int np = (int)W.comb.Partitions.size();
  W.comb.NumTargets = S.targets;
  W.comb.NumFixItems = 0;
  int nsz = chi(1, 3);
  std::set<int> sizes;
  for (int i = 0; i < nsz; i++) sizes.insert(chi(1, std::min(np, 4)));
  int minsz = *sizes.begin();
  W.comb.NumFixPartitions = chance(0.35) ? chi(0, minsz) : 0;
  W.comb.Sizes.assign(sizes.begin(), sizes.end());
  int ng = chi(1, 4);
  for (int g = 0; g < ng; g++) {
    VI v;
    if (S.innerExo) {
      if (S.nExo == 0) {
        if (g) break;
      } else
        for (int i = 0; i < S.nExo; i++)
          if (chance(0.5)) v.push_back(S.nEndo + i);
    } else {
      for (int i = 0; i < S.nEndo; i++)
        if (chance(0.5)) v.push_back(i);
      if (targets_of(v, S.targets).empty()) v.insert(v.begin(), (int)ch(S.targets));
    }
    // no duplicates of groups
    bool dup = false;
    for (auto &q : W.comb.InnerGroups) dup |= q == v;
    if (!dup) W.comb.InnerGroups.push_back(v);
  }
  // items
  auto &it = W.items;
  it.KeepModelEvaluations = S.len1 == 0 || chance(0.85);
  it.KeepInclusionWeights = it.KeepModelEvaluations && chance(0.6);
  it.Length1 = S.len1;
  it.KeepBestCount = chi(0, 6);
  it.KeepAll = it.KeepModelEvaluations && chance(0.6);
  it.KeepMixture = chance(0.6);
  if (chance(0.6)) {
    int n = chi(1, 3);
    for (int i = 0; i < n; i++) it.CdfsAt.push_back((chi(0, 20) - 10) * 0.7);
  }
  it.ExtremeBoundsMultiplier = chance(0.6) ? pick(std::vector<double>{2, 1, 0.25, 3}) : 0;
  it.LengthEndogenous = S.nEndo;
  it.LengthExogenous = S.nExo;
  it.Update(W.met, S.targets, S.nEndo, S.nExo);
  W.checks.Update(W.met);
  W.shuffle = chance(0.7);
  W.workSize = chi(0, 40);
  W.workSizeI = chi(0, 20);
  for (int s : W.comb.Sizes)
    for (auto &g : W.comb.InnerGroups) W.plan.push_back({s, g});
}
// ---- reference
struct Ref {
  long expected = 0;
  std::vector<std::pair<VI, VI>> cands; // endo, exo in evaluation terms
  std::map<std::string, std::pair<VI, VI>> byKey;
};
inline Ref enumerate(const Search &W) {
  Ref R;
  for (auto &p : W.plan) {
    for (auto &c : oracle::enumerate(W.comb.Partitions, p.first, W.comb.NumFixPartitions)) {
      VI endo = W.S.innerExo ? c : p.second, exo = W.S.innerExo ? p.second : c;
      if (W.S.innerExo && targets_of(endo, W.S.targets).empty()) continue;
      R.cands.push_back({endo, exo});
      R.byKey[key(endo, exo)] = {endo, exo};
    }
  }
  R.expected = (long)R.cands.size();
  return R;
}
inline void pool_add(oracle::Agg &A, const Script &S, const VI &endo, const VI &exo, const Result &o) {
  auto t = targets_of(endo, S.targets);
  for (int i = 0; i < S.nmet(); i++)
    for (size_t j = 0; j < t.size(); j++) {
      double v = o.metric[i][j];
      if (std::isnan(v)) continue;
      oracle::Entry e;
      e.metric = v;
      auto mm = S.minMetric.find(S.name(i));
      e.weight = oracle::weight(S.name(i), v, mm == S.minMetric.end() ? 0 : mm->second[t[j]]);
      e.endo = endo;
      e.exo = exo;
      e.extra = o.extra;
      for (size_t k = 0; k < o.mean.size(); k++) {
        e.mean.push_back(o.mean[k][j]);
        e.var.push_back(o.var[k][j]);
      }
      A.pool[{i, t[j]}].push_back(e);
    }
}
inline bool same_keep(const EstimationKeep &k, const oracle::Entry &e) {
  return k.Endogenous == e.endo && k.Exogenouses == e.exo && k.Extra == e.extra && oracle::close(k.Metric, e.metric, 1e-9, 1e-12) && oracle::close(k.Weight, e.weight, 1e-9, 1e-300);
}
struct Cfg {
  bool extraExact = true;
  double tol = 1e-7;
};
// names of metrics: S.name(i); checks everything the model-set reports against the pool
inline void check_results(const ModelSet &ms, const Search &W, const oracle::Agg &A, const char *ctx, double tol = 1e-7) {
  using namespace oracle;
  using sim::violate;
  const Script &S = W.S;
  SearcherModelingInfo info;
  std::vector<SearcherSummary *> l0, l1, l2;
  ms.CombineInfo(info, l0, l1, l2);
  for (int i = 0; i < S.nmet(); i++)
    for (int t = 0; t < S.targets; t++) {
      std::vector<Entry> none;
      auto itp = A.pool.find({i, t});
      const std::vector<Entry> &pool = itp == A.pool.end() ? none : itp->second;
      bool pos = positive(S.name(i));
      auto bests_check = [&](const std::vector<std::shared_ptr<EstimationKeep>> &got, int item) {
        std::vector<const Entry *> cand;
        for (auto &e : pool)
          if (item < 0 || !std::isnan(e.mean[item])) cand.push_back(&e);
        std::stable_sort(cand.begin(), cand.end(), [&](const Entry *a, const Entry *b) { return pos ? a->metric > b->metric : a->metric < b->metric; });
        size_t want = std::min<size_t>(cand.size(), (size_t)W.items.KeepBestCount);
        if (got.size() != want) violate("best-count", "%s: metric %s target %d item %d: %zu best entries reported, expected %zu", ctx, S.name(i).c_str(), t, item, got.size(), want);
        std::vector<char> used(cand.size(), 0);
        for (size_t k = 0; k < want; k++) {
          if (!close(got[k]->Metric, cand[k]->metric, 1e-9, 1e-12))
            violate("best-order", "%s: metric %s target %d item %d: rank %zu has metric %.12g, expected %.12g", ctx, S.name(i).c_str(), t, item, k + 1, got[k]->Metric, cand[k]->metric);
          bool found = false;
          for (size_t q = 0; q < cand.size(); q++)
            if (!used[q] && same_keep(*got[k], *cand[q]) && (item < 0 || (close(got[k]->Mean, cand[q]->mean[item], 1e-9, 1e-12) && close(got[k]->Variance, cand[q]->var[item], 1e-9, 1e-12)))) {
              used[q] = 1;
              found = true;
              break;
            }
          if (!found)
            violate("best-entry", "%s: metric %s target %d item %d: rank %zu reports a model that matches no candidate: endo %s exo %s extra %s metric %.12g weight %.12g mean %.12g var %.12g", ctx, S.name(i).c_str(), t, item, k + 1, vs(got[k]->Endogenous).c_str(), vs(got[k]->Exogenouses).c_str(), vs(got[k]->Extra).c_str(), got[k]->Metric, got[k]->Weight, got[k]->Mean, got[k]->Variance);
        }
        for (auto &g : got) sim::observe_d(g->Metric), sim::observe_d(g->Weight);
      };
      if (W.items.KeepModelEvaluations) {
        std::vector<std::shared_ptr<EstimationKeep>> got;
        if (W.items.KeepBestCount > 0) {
          ms.CombineBests(i, t, 0, l0, got);
          bests_check(got, -1);
        }
        if (W.items.KeepAll) {
          std::vector<std::shared_ptr<EstimationKeep>> all;
          ms.CombineAll(i, t, 0, l0, all);
          if (all.size() != pool.size()) violate("all-count", "%s: metric %s target %d: %zu models in the list of all models, expected %zu", ctx, S.name(i).c_str(), t, all.size(), pool.size());
          std::vector<char> used(pool.size(), 0);
          for (auto &g : all) {
            bool f = false;
            for (size_t q = 0; q < pool.size() && !f; q++)
              if (!used[q] && same_keep(*g, pool[q])) used[q] = 1, f = true;
            if (!f) violate("all-entry", "%s: metric %s target %d: the list of all models has an entry that matches no candidate: endo %s exo %s metric %.12g weight %.12g", ctx, S.name(i).c_str(), t, vs(g->Endogenous).c_str(), vs(g->Exogenouses).c_str(), g->Metric, g->Weight);
          }
        }
        if (W.items.KeepInclusionWeights) {
          for (int v = 0; v < S.nEndo + S.nExo; v++) {
            WM m;
            for (auto &e : pool) {
              for (int x : e.endo)
                if (x == v) m.add(e.weight, 1);
              for (int x : e.exo)
                if (x == v) m.add(e.weight, 1);
            }
            RunningMoments<1, true, false, Tv> r;
            ms.CombineInclusionWeights(i, t, v, l0, r);
            if (r.Count != m.n || !close(r.GetMean(), m.mean(), tol, 1e-300))
              violate("inclusion", "%s: metric %s target %d variable %d: inclusion weight %.12g (count %d), expected %.12g (count %ld)", ctx, S.name(i).c_str(), t, v, r.GetMean(), r.Count, m.mean(), m.n);
            sim::observe_d(r.GetMean());
          }
        }
      }
      for (int k = 0; k < W.items.Length1; k++) {
        if (W.items.KeepBestCount > 0) {
          std::vector<std::shared_ptr<EstimationKeep>> got;
          ms.CombineBests(i, t, k, l1, got);
          bests_check(got, k);
        }
        long n = 0, nz = 0;
        for (auto &e : pool)
          if (!std::isnan(e.mean[k])) n++, nz += e.weight != 0;
        long nz0 = nz;
        for (size_t c = 0; c < W.items.CdfsAt.size(); c++, nz = nz0) {
          WM m;
          for (auto &e : pool)
            if (!std::isnan(e.mean[k])) {
              long double F = 0.5L * std::erfc(-((long double)W.items.CdfsAt[c] - e.mean[k]) / std::sqrt((long double)e.var[k]) / std::sqrt(2.0L));
              if (std::isnan(F)) nz -= e.weight != 0; // (a point mass at this very place: not defined, left out)
              else m.add(F, e.weight);
            }
          RunningMoments<1, true, true, Tv> r;
          ms.CombineCdfAt(i, t, k, (Ti)c, l1, r);
          if (r.Count < nz || r.Count > n || !close(r.GetMean(), m.mean(), tol, 1e-9) || !close(r.SumWeights, (double)m.w, tol, 1e-300))
            violate("cdf", "%s: metric %s target %d item %d: average distribution function at %g is %.12g (count %d, weight %.12g), expected %.12g (count %ld, weight %.12g)", ctx, S.name(i).c_str(), t, k, W.items.CdfsAt[c], r.GetMean(), r.Count, r.SumWeights, m.mean(), n, (double)m.w);
          sim::observe_d(r.GetMean());
        }
        if (W.items.KeepMixture) {
          for (auto &e : pool) // (without a variance there is nothing to mix)
            if (!std::isnan(e.mean[k]) && std::isnan(e.var[k])) nz -= e.weight != 0;
          long double w = 0, mu = 0, M2 = 0, M3 = 0, M4 = 0;
          for (auto &e : pool)
            if (!std::isnan(e.mean[k]) && !std::isnan(e.var[k])) w += e.weight, mu += (long double)e.weight * e.mean[k];
          mu = w == 0 ? NAN : mu / w;
          for (auto &e : pool)
            if (!std::isnan(e.mean[k]) && !std::isnan(e.var[k])) {
              long double d = e.mean[k] - mu, v = e.var[k], q = e.weight;
              M2 += q * (v + d * d);
              M3 += q * (3 * v * d + d * d * d);
              M4 += q * (3 * v * v + 6 * v * d * d + d * d * d * d);
            }
          RunningMoments<4, true, true, Tv> r;
          ms.CombineMixture(i, t, k, l1, r);
          double em = w == 0 ? NAN : (double)mu, ev = w == 0 ? NAN : (double)(M2 / w), es = w == 0 ? NAN : (double)(std::sqrt(w) * M3 / std::pow(M2, 1.5L)), ek = w == 0 ? NAN : (double)(w * M4 / (M2 * M2) - 3);
          bool shape = !(ev < 1e-12 * (1 + em * em)); // (nearly a single point)
          if (r.Count < nz || r.Count > n || !close(r.GetMean(), em, tol, 1e-8) || !close(r.GetVariance(), ev, tol, 1e-8) || (shape && (!close(r.GetSkewness(), es, 1e-5, 1e-6) || !close(r.GetKurtosis(), ek, 1e-5, 1e-6))) || !close(r.SumWeights, (double)w, tol, 1e-300))
            violate("mixture", "%s: metric %s target %d item %d: mixture moments %.10g %.10g %.10g %.10g (count %d, weight %.10g), expected %.10g %.10g %.10g %.10g (count %ld, weight %.10g)", ctx, S.name(i).c_str(), t, k, r.GetMean(), r.GetVariance(), r.GetSkewness(), r.GetKurtosis(), r.Count, r.SumWeights, em, ev, es, ek, n, (double)w);
          sim::observe_d(r.GetMean());
        }
        if (W.items.ExtremeBoundsMultiplier > 0 && n > 0) {
          double lo = INFINITY, hi = -INFINITY;
          for (auto &e : pool)
            if (!std::isnan(e.mean[k])) {
              double d = W.items.ExtremeBoundsMultiplier * std::sqrt(e.var[k]);
              lo = std::min(lo, e.mean[k] - d);
              hi = std::max(hi, e.mean[k] + d);
            }
          Tv a, b;
          ms.CombineExtremeBounds(i, t, k, l1, a, b);
          if (lo <= hi && (!close(a, lo, 1e-9, 1e-12) || !close(b, hi, 1e-9, 1e-12))) violate("extreme-bounds", "%s: metric %s target %d item %d: extreme bounds [%.12g, %.12g], expected [%.12g, %.12g]", ctx, S.name(i).c_str(), t, k, a, b, lo, hi);
          sim::observe_d(a);
          sim::observe_d(b);
        }
      }
    }
}
struct Run { // live objects of one search
  std::vector<Searcher *> list;
  std::unique_ptr<ModelSet> ms;
  double *work = nullptr;
  int *workI = nullptr;
};
inline sim::Outcome construct(Search &W, Run &R) {
  return sim::sut([&] {
    for (auto &p : W.plan) {
      auto s = new ScriptSearcher(&W.S, W.data, W.comb, W.opt, W.items, W.met, W.checks, p.first, p.second);
      R.list.push_back(s);
      s->WorkSize = W.workSize;
      s->WorkSizeI = W.workSizeI;
    }
    R.ms = std::make_unique<ModelSet>(R.list, W.data, W.comb, W.opt, W.items, W.met, W.checks);
    R.ms->ShuffleSearchers = W.shuffle;
  });
}
inline sim::Outcome start(Search &W, Run &R, int fill, uint64_t fs) {
  if (!W.opt.Parallel) {
    R.work = (double *)sim::arena_new(sizeof(double) * (size_t)R.ms->WorkSize, fill, fs, "work");
    R.workI = (int *)sim::arena_new(sizeof(int) * (size_t)R.ms->WorkSizeI, fill, fs, "workI");
  }
  return sim::sut([&] { R.ms->Start(R.work, R.workI); });
}
inline void destroy(Run &R) {
  sim::sut([&] {
    R.ms.reset();
    for (auto s : R.list) delete s;
    R.list.clear();
    R.list.shrink_to_fit();
  });
  sim::arena_free(R.work);
  sim::arena_free(R.workI);
  R.work = nullptr;
  R.workI = nullptr;
}
inline void protect_inputs(Search &W) {
  sim::protect(W.raw.data(), W.raw.size() * 8, "the data matrix");
  sim::protect(&W.data, sizeof W.data, "the data description");
  sim::protect(&W.items, sizeof W.items, "the requested items");
  sim::protect(&W.met, sizeof W.met, "the metric options");
  sim::protect(&W.checks, sizeof W.checks, "the model checks");
  sim::protect(&W.comb, sizeof W.comb, "the combinations");
  for (auto &p : W.comb.Partitions) sim::protect(p.data(), p.size() * 4, "a partition");
  for (auto &p : W.comb.InnerGroups) sim::protect(p.data(), p.size() * 4, "an inner group");
}
// failure table vs. expectation over the candidates that were evaluated
inline void check_failures(const SearcherModelingInfo &info, const std::map<std::string, long> &named, long unnamed, long nanfail, const char *ctx) {
  long other = 0;
  std::map<std::string, long> seen;
  for (auto &f : info.FailsCount) {
    auto it = named.find(f.first);
    if (it != named.end()) {
      if (it->second != f.second) sim::violate("failure-count", "%s: failure '%s' counted %d times, expected %ld", ctx, f.first.c_str(), f.second, it->second);
      seen[f.first] = 1;
    } else
      other += f.second;
  }
  for (auto &n : named)
    if (!seen.count(n.first)) sim::violate("failure-lost", "%s: failure '%s' (%ld times) is missing from the failure table", ctx, n.first.c_str(), n.second);
  if (other != unnamed + nanfail) sim::violate("failure-count", "%s: %ld failures under other messages, expected %ld", ctx, other, unnamed + nanfail);
}
} // namespace wl

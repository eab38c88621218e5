// The calls of the R session (P05): the package's own C++ entry points run inside an embedded R; progress polls,
// user interrupts, clocks, threads, entropy and memory are the simulator's.
#define STRICT_R_HEADERS
#include "real_run.h"
#include "r_ldt.h"
#include "s_r.h"
#define CSTACK_DEFNS
#define R_INTERFACE_PTRS
#include <Rembedded.h>
#include <Rinterface.h>
#include <unistd.h>
using namespace sim;
SEXP SearchSur(List, List, List, List, List, List, int, double);
SEXP SearchDc(List, List, List, List, List, List, SEXP, bool, bool, List, List, int);
SEXP SearchVarma(List, List, List, List, List, List, IntegerVector, int, int, bool, double, List);
extern "C" int R_SignalHandlers;

static long g_polls = 0, g_idle = 0;
static uint64_t g_hit_ev = 0;
static bool g_watch_polls = false;
std::string g_console;
static void console(const char *s, int n, int) { if (g_console.size() < 100000) g_console.append(s, n); }
namespace sim {
void app_init() {
  setenv("R_ENABLE_JIT", "0", 1);
  setenv("R_HOME", R_HOME_DIR, 1);
  R_SignalHandlers = 0;
  const char *av[] = {"R", "--vanilla", "--no-echo"};
  Rf_initEmbeddedR(3, (char **)av);
  R_CStackLimit = (uintptr_t)-1;
  R_Interactive = (Rboolean)TRUE;
  R_Outputfile = nullptr;
  R_Consolefile = nullptr;
  ptr_R_WriteConsole = nullptr;
  ptr_R_WriteConsoleEx = console;
  int err = 0;
  SEXP e = PROTECT(Rf_lang2(Rf_install("loadNamespace"), Rf_mkString("Rcpp")));
  R_tryEval(e, R_GlobalEnv, &err);
  UNPROTECT(1);
  steps_init();
  if (R_TempDir) rmdir(R_TempDir); // (nothing of a session is kept)
  if (err) fprintf(stderr, "R: Rcpp cannot be loaded\n"), exit(2);
}
} // namespace sim
extern "C" {
void __real_R_CheckUserInterrupt();
void __wrap_R_CheckUserInterrupt() { // one progress poll
  if (in_sut()) {
    g_polls++;
    if (g_watch_polls && !live_threads()) {
      if (++g_idle > 3) {
        Harness h;
        violate("late", "%ld progress polls after the work ended", g_idle);
      }
    } else g_idle = 0;
    if (fault(F_INTERRUPT)) {
      if (!g_hit_ev) g_hit_ev = events_now();
      R_interrupts_pending = 1;
    }
  }
  __real_R_CheckUserInterrupt();
}
}
namespace {
using namespace real;
using NM = NumericMatrix;
using CV = CharacterVector;
struct Names { std::vector<std::string> col, inc, par, target, metric, extra; };
Names names(real::Search &W) {
  Names n;
  for (int i = 0; i < W.S.nEndo; i++) n.col.push_back("Y" + std::to_string(i + 1));
  n.inc = n.col;
  if (W.S.hasWeight) n.col.push_back("w");
  for (int i = 0; i < W.S.nExo; i++) {
    n.col.push_back("X" + std::to_string(i + 1)), n.inc.push_back(n.col.back());
    if (W.kind != VARMA) n.par.push_back(n.col.back());
  }
  if (W.kind == DC)
    for (int i = 0; i < W.choices - 2; i++) n.par.push_back("Threshold" + std::to_string(i + 1));
  if (W.kind == VARMA) {
    for (int i = 0; i < W.S.len1; i++) n.par.push_back("Horizon" + std::to_string(i + 1));
    n.extra = {"arP", "arD", "arQ", "maP", "maD", "maQ"};
  } else n.extra = {"dist"};
  n.target.assign(n.col.begin(), n.col.begin() + W.S.targets);
  for (auto m : W.met.MetricsIn) n.metric.push_back(ToString(m, true));
  for (auto m : W.met.MetricsOut) n.metric.push_back(ToString(m, true));
  return n;
}
template <class V> NumericVector nv(const V &v) { return NumericVector(v.begin(), v.end()); }
NM nm(const double *d, int r, int c) {
  NM m(r, c);
  for (int i = 0; i < r * c; i++) m[i] = d[i];
  return m;
}
struct Args {
  List data, comb, met, chk, items, opt, extra1, extra2;
  SEXP costs = R_NilValue;
  List costl;
};
void args(Args &a, real::Search &W, const Names &n, int interval) {
  NM m = nm(W.raw.data(), W.rows, W.cols);
  colnames(m) = wrap(n.col);
  a.data = List::create(_["data"] = m, _["numEndo"] = W.S.nEndo, _["numExo"] = W.S.nExo, _["newX"] = R_NilValue, _["lambdas"] = W.data.Lambdas.empty() ? R_NilValue : (SEXP)nv(W.data.Lambdas),
                        _["hasIntercept"] = false, _["hasWeight"] = W.S.hasWeight);
  List parts, inner;
  for (auto &p : W.comb.Partitions) parts.push_back(IntegerVector(p.begin(), p.end()));
  for (auto &p : W.comb.InnerGroups) inner.push_back(IntegerVector(p.begin(), p.end()));
  a.comb = List::create(_["sizes"] = IntegerVector(W.comb.Sizes.begin(), W.comb.Sizes.end()), _["partitions"] = parts, _["numFixPartitions"] = W.comb.NumFixPartitions, _["innerGroups"] = inner, _["numTargets"] = W.S.targets);
  List mm;
  std::vector<std::string> mn = {"aic", "sic", "brierIn", "brierOut", "rmse", "rmspe", "mae", "mape", "crps"};
  for (auto &s : mn) {
    auto it = W.S.minMetric.find(s);
    mm.push_back(it == W.S.minMetric.end() ? NumericVector(W.S.targets) : nv(it->second));
  }
  mm.names() = wrap(mn);
  a.met = List::create(_["typesIn"] = wrap(W.S.in), _["typesOut"] = wrap(W.S.out), _["simFixSize"] = W.met.SimFixSize, _["trainRatio"] = W.met.TrainRatio, _["trainFixSize"] = W.met.TrainFixSize, _["seed"] = (int)W.met.Seed,
                       _["horizons"] = IntegerVector(W.met.Horizons.begin(), W.met.Horizons.end()), _["weightedEval"] = W.met.WeightedEval, _["minMetrics"] = mm);
  auto &c = W.checks;
  a.chk = List::create(_["estimation"] = c.Estimation, _["maxConditionNumber"] = c.MaxConditionNumber, _["minObsCount"] = c.MinObsCount, _["minDof"] = c.MinDof, _["minOutSim"] = c.MinOutSim, _["minR2"] = c.MinR2, _["maxAic"] = c.MaxAic,
                       _["maxSic"] = c.MaxSic, _["prediction"] = c.Prediction);
  if (c.PredictionLower.Data) {
    a.chk.push_back(List::create(_["lower"] = nm(c.PredictionLower.Data, W.horizon, W.S.targets), _["upper"] = nm(c.PredictionUpper.Data, W.horizon, W.S.targets)), "predictionBound");
  }
  auto &it = W.items;
  a.items = List::create(_["model"] = it.KeepModelEvaluations, _["type1"] = W.S.len1 > 0, _["type2"] = false, _["bestK"] = it.KeepBestCount, _["all"] = it.KeepAll, _["inclusion"] = it.KeepInclusionWeights, _["cdfs"] = nv(it.CdfsAt),
                         _["extremeMultiplier"] = it.ExtremeBoundsMultiplier, _["mixture4"] = it.KeepMixture);
  a.opt = List::create(_["parallel"] = W.opt.Parallel, _["reportInterval"] = interval);
  if (W.kind == DC) {
    for (auto &m0 : W.costs) a.costl.push_back(nm(m0.Data, m0.RowsCount, m0.ColsCount));
    if (!W.costs.empty()) a.costs = a.costl;
    a.extra1 = List::create(_["maxIterations"] = W.newton.IterationMax, _["functionTol"] = W.newton.TolFunction, _["gradientTol"] = W.newton.TolGradient, _["useLineSearch"] = W.newton.UseLineSearch);
    a.extra2 = List::create(_["lowerThreshold"] = W.roc.LowerThreshold, _["upperThreshold"] = W.roc.UpperThreshold, _["epsilon"] = W.roc.Epsilon, _["pessimistic"] = W.roc.Pessimistic, _["costs"] = R_NilValue, _["costMatrix"] = R_NilValue);
  } else if (W.kind == VARMA)
    a.extra1 = List::create(_["maxIterations"] = W.lb.IterationMax, _["factor"] = W.lb.Factor, _["projectedGradientTol"] = W.lb.ProjectedGradientTol, _["maxCorrections"] = W.lb.mMaxCorrections);
}
SEXP call(real::Search &W, Args &a) {
  if (W.kind == SUR) return SearchSur(a.data, a.comb, a.met, a.chk, a.items, a.opt, W.sigIter, W.sigProb);
  if (W.kind == DC) return SearchDc(a.data, a.comb, a.met, a.chk, a.items, a.opt, a.costs, W.logit, W.probit, a.extra1, a.extra2, W.choices);
  return SearchVarma(a.data, a.comb, a.met, a.chk, a.items, a.opt, IntegerVector(W.maxPar.begin(), W.maxPar.end()), W.season, W.horizon, W.usePrev, W.stdMult, a.extra1);
}
// ---- a result, as numbers and texts under the names a user reads
std::string num(double v) {
  char b[40];
  snprintf(b, sizeof b, "%.9g", v == 0 ? 0.0 : v);
  return b;
}
std::string join(const std::vector<std::string> &v) {
  std::string s;
  for (auto &x : v) s += x + " ";
  return s;
}
} // namespace
Flat flat(SEXP res) {
  Flat f;
  List L(res);
  List c = L["counts"];
  for (const char *k : {"expectedCount", "searchedCount", "failedCount"}) f.num[std::string("count|") + k] = {as<double>(c[k])};
  List fd = c["failedDetails"];
  for (int i = 0; i < fd.size(); i++) {
    List d = fd[i];
    f.num["failed|" + as<std::string>(d["message"])] = {as<double>(d["count"])};
  }
  List rs = L["results"];
  for (int i = 0; i < rs.size(); i++) {
    List r = rs[i];
    auto type = as<std::string>(r["typeName"]);
    auto key = as<std::string>(r["evalName"]) + "|" + as<std::string>(r["targetName"]) + "|" + type;
    SEXP info = r["info"], val = r["value"];
    if (type == "model" || type.rfind("best", 0) == 0) {
      List v(val);
      std::vector<double> d = {as<double>(v["metric"]), as<double>(v["weight"])};
      if (v.containsElementNamed("mean")) d.push_back(as<double>(v["mean"])), d.push_back(as<double>(v["variance"]));
      std::string t = "endogenous " + join(as<std::vector<std::string>>(v["endogenous"])) + "exogenous " + join(as<std::vector<std::string>>(v["exogenous"]));
      if (v.containsElementNamed("extra")) {
        IntegerVector e = v["extra"];
        CV en = e.names();
        for (int q = 0; q < e.size(); q++) t += std::string(en[q]) + "=" + std::to_string(e[q]) + " ";
      }
      if (type == "model") {
        for (double x : d) t += num(x) + " ";
        f.all[key].insert(t);
      } else {
        key += "|" + std::to_string(as<int>(info));
        if (f.num.count(key)) violate("result", "two items %s", key.c_str());
        f.num[key] = d;
        f.txt[key] = t;
      }
    } else {
      if (info != R_NilValue) key += "|" + num(as<double>(info));
      NM m(val);
      if (f.num.count(key)) key += "|again";
      f.num[key] = std::vector<double>(m.begin(), m.end());
      f.txt[key] = "rows " + join(as<std::vector<std::string>>(rownames(m))) + "columns " + join(as<std::vector<std::string>>(colnames(m)));
    }
  }
  return f;
}
namespace {
// the same from the search itself, run without R
Flat flat(real::Search &W, const Names &n) {
  Flat f;
  SearcherModelingInfo info;
  std::vector<SearcherSummary *> l0, l1, l2;
  ModelSet &M = W.ms();
  M.CombineInfo(info, l0, l1, l2);
  long fails = 0;
  for (auto &q : info.FailsCount) fails += q.second, f.num["failed|" + q.first] = {(double)q.second};
  f.num["count|expectedCount"] = {(double)info.ExpectedCount};
  f.num["count|searchedCount"] = {(double)info.SearchedCount};
  f.num["count|failedCount"] = {(double)fails};
  auto put = [&](const std::string &key, EstimationKeep &k, int j, bool coef, bool all) {
    std::vector<double> d = {k.Metric, k.Weight};
    if (coef) d.push_back(k.Mean), d.push_back(k.Variance);
    std::string t = "endogenous ";
    for (int e : k.Endogenous) t += n.col.at(e) + " ";
    t += "exogenous ";
    for (int e : k.Exogenouses) t += n.col.at(e + W.S.hasWeight) + " ";
    for (size_t q = 0; q < k.Extra.size(); q++) t += n.extra.at(q) + "=" + std::to_string(k.Extra[q]) + " ";
    if (all) {
      for (double x : d) t += num(x) + " ";
      f.all[key].insert(t);
    } else {
      f.num[key + "|" + std::to_string(j)] = d;
      f.txt[key + "|" + std::to_string(j)] = t;
    }
  };
  for (int e = 0; e < (int)n.metric.size(); e++)
    for (int t = 0; t < (int)n.target.size(); t++) {
      std::string key = n.metric[e] + "|" + n.target[t] + "|";
      auto &it = W.items;
      std::vector<std::shared_ptr<EstimationKeep>> l;
      if (it.KeepBestCount > 0) {
        M.CombineBests(e, t, 0, l0, l);
        for (size_t j = 0; j < l.size(); j++) put(key + "best model", *l[j], (int)j, false, false);
        for (int q = 0; q < W.S.len1; q++) {
          l.clear();
          M.CombineBests(e, t, q, l1, l);
          for (size_t j = 0; j < l.size(); j++) put(key + "best item for '" + n.par.at(q) + "'", *l[j], (int)j, true, false);
        }
      }
      if (it.KeepAll) {
        l.clear();
        M.CombineAll(e, t, 0, l0, l);
        for (auto &k : l) put(key + "model", *k, 0, false, true);
      }
      if (it.KeepInclusionWeights) {
        std::vector<double> a, b;
        for (size_t i = 0; i < n.inc.size(); i++) {
          RunningMoments<1, true, false, Tv> r;
          M.CombineInclusionWeights(e, t, (Ti)i, l0, r);
          a.push_back(r.GetMean()), b.push_back((double)r.Count);
        }
        a.insert(a.end(), b.begin(), b.end());
        f.num[key + "inclusion"] = a;
        f.txt[key + "inclusion"] = "rows " + join(n.inc) + "columns Mean Count ";
      }
      if (!W.S.len1) continue;
      int L1 = W.S.len1;
      for (size_t k = 0; k < it.CdfsAt.size(); k++) {
        std::vector<double> d(3 * L1);
        for (int i = 0; i < L1; i++) {
          RunningMoments<1, true, true, Tv> r;
          M.CombineCdfAt(e, t, i, (Ti)k, l1, r);
          d[i] = r.GetMean(), d[L1 + i] = (double)r.Count, d[2 * L1 + i] = r.SumWeights;
        }
        auto kk = key + "cdf|" + num(it.CdfsAt[k]);
        if (f.num.count(kk)) kk += "|again";
        f.num[kk] = d;
        f.txt[kk] = "rows " + join(n.par) + "columns Mean Count SumWeights ";
      }
      if (it.ExtremeBoundsMultiplier > 0) {
        std::vector<double> d(2 * L1);
        for (int i = 0; i < L1; i++) M.CombineExtremeBounds(e, t, i, l1, d[i], d[L1 + i]);
        auto kk = key + "extreme bound|" + num(it.ExtremeBoundsMultiplier);
        f.num[kk] = d;
        f.txt[kk] = "rows " + join(n.par) + "columns Lower Upper ";
      }
      if (it.KeepMixture) {
        std::vector<double> d(6 * L1);
        for (int i = 0; i < L1; i++) {
          RunningMoments<4, true, true, Tv> r;
          M.CombineMixture(e, t, i, l1, r);
          double v[6] = {r.GetMean(), r.GetVariance(), r.GetSkewness(), r.GetKurtosis(), (double)r.Count, r.SumWeights};
          for (int q = 0; q < 6; q++) d[q * L1 + i] = v[q];
        }
        f.num[key + "mixture"] = d;
        f.txt[key + "mixture"] = "rows " + join(n.par) + "columns Mean Variance Skewness Kurtosis Count SumWeights ";
      }
    }
  return f;
}
bool near(double a, double b, double tol) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= tol * std::max(std::fabs(a), std::fabs(b)) + 1e-12; }
} // namespace
void compare(const Flat &a, const Flat &r, const char *ctx) {
  for (auto &p : r.num)
    if (!a.num.count(p.first)) violate("result", "%s: item missing: %s", ctx, p.first.c_str());
  for (auto &p : a.num) {
    auto q = r.num.find(p.first);
    if (q == r.num.end()) violate("result", "%s: unexpected item: %s", ctx, p.first.c_str());
    bool best = p.first.find("|best ") != std::string::npos, mix = p.first.find("|mixture") != std::string::npos;
    bool tie = false; // equal metrics: their order is free
    if (best) {
      auto s = p.first.rfind('|');
      int j = atoi(p.first.c_str() + s + 1);
      for (int d : {-1, 1}) {
        auto z = r.num.find(p.first.substr(0, s + 1) + std::to_string(j + d));
        tie |= z != r.num.end() && near(z->second[0], q->second[0], 1e-8);
        tie |= z == r.num.end() && d > 0; // (the last may tie with one that is not shown)
      }
    }
    if (p.second.size() != q->second.size()) violate("result", "%s: %s has %zu values, expected %zu", ctx, p.first.c_str(), p.second.size(), q->second.size());
    size_t L = p.second.size() / 6;
    for (size_t i = 0; i < p.second.size(); i++) {
      if (tie && i >= 1) continue;
      if (mix && (i / L == 2 || i / L == 3)) continue; // (shape of nearly equal values: sensitive to the order)
      if (!near(p.second[i], q->second[i], mix ? 1e-6 : 1e-8)) violate("result", "%s: value %zu of %s is %.12g, expected %.12g", ctx, i, p.first.c_str(), p.second[i], q->second[i]);
    }
    auto ta = a.txt.find(p.first), tr = r.txt.find(p.first);
    if (!tie && tr != r.txt.end() && ta->second != tr->second) violate("result", "%s: %s is '%s', expected '%s'", ctx, p.first.c_str(), ta->second.c_str(), tr->second.c_str());
  }
  if (a.all != r.all) {
    for (auto &p : r.all)
      if (!a.all.count(p.first) || a.all.at(p.first) != p.second) violate("result", "%s: the models listed under %s differ (%zu, expected %zu), e.g. expected %s", ctx, p.first.c_str(), a.all.count(p.first) ? a.all.at(p.first).size() : 0, p.second.size(), p.second.begin()->c_str());
    violate("result", "%s: unexpected list of models", ctx);
  }
}

SCENARIO("P05", p05_search, 1) {
  g_watch_polls = true;
  real::Search W;
  Opts o;
  o.small = chance(0.8);
  o.trouble = chance(0.2);
  real::gen(W, o);
  W.roc.Pessimistic = false; // (the R layer has no such option)
  auto &it = W.items;
  if (!it.KeepBestCount && !it.KeepAll && it.CdfsAt.empty() && !it.KeepMixture && !(it.ExtremeBoundsMultiplier > 0) && !it.KeepInclusionWeights) it.KeepAll = true; // (the R layer wants a goal)
  W.opt.Parallel = chance(0.6);
  int interval = chance(0.5) ? 0 : chi(1, 3);
  World w = gen_world(5);
  w.event_budget = 800000000;
  w.race = false;
  real::describe(W, w);
  // the search without R
  uint64_t total = prepare(W, w);
  Names n = names(W);
  begin(real::quiet(w));
  go(W, w);
  check_full(W, "without R");
  Flat ref = flat(W, n), ref2 = ref;
  destroy(W);
  unprotect_all();
  end(false);
  uint64_t longest = 0;
  for (auto e : W.alone_ev) longest = std::max(longest, e);
  Args a;
  args(a, W, n, interval);
  // how slow the work is, in progress polls, and what happens meanwhile
  int polls = chance(0.3) ? 0 : chi(1, 40);
  int how = (int)ch(8); // 0-1 nothing, 2-3 interrupt, 4 memory, 5 entropy, 6 thread, 7 clock
  w.ns_per_event = std::max<int64_t>(1, (int64_t)((double)polls * 1e9 / std::max<uint64_t>(total, 1)));
  if (how == 2 || how == 3) w.rules.push_back({F_INTERRUPT, ch(polls + 2), how == 2 ? 1 : 1ULL << 40, 0});
  if (how == 4) w.rules.push_back({F_ALLOC, (uint64_t)(chreal() * 400 * (chance(0.5) ? 1 : 20)), chance(0.5) ? 1 : chance(0.5) ? 5 : 1ULL << 40, 0});
  if (how == 5) w.rules.push_back({F_ENTROPY, ch(3), 1ULL << 40, 0});
  if (how == 6) w.rules.push_back({F_THREAD, ch(3), chance(0.5) ? 1 : 1ULL << 40, 0});
  if (how == 7) w.rules.push_back({F_CLOCK, 0, 1ULL << 40, 0.5});
  static const char *hn[] = {"nothing", "nothing", "interrupt", "interrupts", "out of memory", "no entropy", "no thread", "clock jumps"};
  describe(", report interval %d, about %d polls, %s", interval, polls, hn[how]);
  g_polls = g_idle = 0;
  g_hit_ev = 0;
  uint64_t hit0 = fault_fired(F_INTERRUPT), al0 = fault_fired(F_ALLOC), en0 = fault_fired(F_ENTROPY), th0 = fault_fired(F_THREAD);
  begin(w);
  if (chance(0.35)) torture(chance(0.4));
  double *dp = REAL((SEXP)a.data["data"]);
  protect(dp, (size_t)W.rows * W.cols * 8, "the data matrix of the session");
  SEXP res = R_NilValue;
  Outcome q = sut([&] { res = PROTECT(call(W, a)); });
  uint64_t ev = events_now();
  bool intr = fault_fired(F_INTERRUPT) > hit0, al = fault_fired(F_ALLOC) > al0, en = fault_fired(F_ENTROPY) > en0, th = fault_fired(F_THREAD) > th0;
  if (live_threads()) violate("left-behind", "the call returned while its work still runs");
  if (!q.ok && !intr && !al && !en && !th) violate("raised", "the call raised without a reason: %s %s", q.kind.c_str(), q.what.c_str());
  if (q.ok && intr) violate("interrupt-ignored", "the call returned although the user interrupted it at poll %ld", g_polls);
  if (q.ok && res == R_NilValue) violate("no-result", "the call returned nothing");
  if (q.ok && th && !W.opt.Parallel) violate("thread-ignored", "the call returned although its thread could not start");
  if (intr) {
    int nt = W.opt.Parallel ? w.omp_threads : 1;
    uint64_t lim = (uint64_t)nt * (longest + longest / 2) + 40000;
    if (ev - g_hit_ev > lim) violate("not-prompt", "the call went on for %llu steps after the interrupt; the longest candidate takes %llu, %d workers", (unsigned long long)(ev - g_hit_ev), (unsigned long long)longest, nt);
    if (total > 2 * lim) probe("interrupt of a long search");
  }
  if (q.ok) {
    Flat f = flat(res);
    double fr = ref.num["count|failedCount"][0], fa = f.num["count|failedCount"][0];
    bool sim = al && !W.met.MetricsOut.empty(); // (an iteration may be missing from a score)
    if (al) {
      auto drop = [](Flat &x) {
        for (auto i = x.num.begin(); i != x.num.end();) i = i->first.rfind("failed|", 0) == 0 ? x.num.erase(i) : std::next(i);
      };
      drop(f), drop(ref); // (a model may fail for lack of memory before it fails by itself)
    }
    if (!al || (fr == fa && !sim)) compare(f, ref, al ? "out of memory" : hn[how]);
    else if (f.num["count|searchedCount"] != ref.num["count|searchedCount"]) violate("searched-count", "out of memory: %g candidates searched, expected %g", f.num["count|searchedCount"][0], ref.num["count|searchedCount"][0]);
    UNPROTECT(1);
  }
  std::string what = q.ok ? "result" : intr ? "raised: interrupt" : al ? "raised: memory" : en ? "raised: entropy" : "raised: thread";
  probe(what.c_str());
  probe("polls", g_polls);
  state_key(how * 1000 + std::min(g_polls, 50L) * 10 + W.kind);
  observe(g_polls);
  observe_s(what);
  clear_rules();
  unprotect_all();
  end(false);
  nontrivial();
  // the same session goes on: the same call gives the full result
  if (q.ok && chance(0.7)) return;
  World w2 = gen_world(4);
  w2.event_budget = 800000000;
  w2.race = false;
  w2.ns_per_event = w.ns_per_event;
  g_polls = g_idle = 0;
  begin(w2);
  q = sut([&] { res = PROTECT(call(W, a)); });
  if (!q.ok) violate("raised", "afterwards: the call raised: %s %s", q.kind.c_str(), q.what.c_str());
  if (live_threads()) violate("left-behind", "afterwards: the call returned while its work still runs");
  compare(flat(res), ref2, "afterwards");
  UNPROTECT(1);
  end(false);
}

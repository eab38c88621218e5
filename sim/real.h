// Workload: model searches over real candidates (SUR, discrete choice, VARMA). The reference estimates every
// candidate alone, with its own objects and buffers and the seed the search gives it, and adds the outcomes up
// with the independent aggregation of oracle.h.
#pragma once
#include "wl_script.h"
namespace real {
using oracle::VI;
using wl::Result;
using wl::Script;
enum Kind { SUR = 0, DC, VARMA };
struct Cand {
  VI endo, exo, extra; // as the search reports them
  unsigned seed = 0;
  int probit = 0;
  VI par; // p d q P D Q
};
struct Opts {
  bool out = false;      // wants out-of-sample metrics
  bool keepall = false;  // wants the list of all models
  bool trouble = false;  // wants candidates that fail by themselves
  int kind = -1;
  bool small = false;    // few candidates
};
struct Search : wl::Search {
  int kind = SUR;
  int rows = 0, cols = 0, future = 0;
  // SUR
  int sigIter = 0;
  double sigProb = 0;
  // DC
  int choices = 2;
  bool logit = true, probit = false;
  std::vector<std::vector<double>> costd;
  std::vector<Matrix<Tv>> costs;
  Newton newton;
  RocOptions roc;
  // VARMA
  VI maxPar;
  int season = 0, horizon = 0;
  bool usePrev = false;
  double stdMult = 2;
  LimitedMemoryBfgsbOptions lb;
  std::vector<double> tdata; // variables in rows
  Matrix<Tv> tmat;
  std::unique_ptr<DatasetTs<true>> src;
  // live objects
  std::unique_ptr<SurModelset> sur;
  std::unique_ptr<DiscreteChoiceModelsetBase> dc;
  std::unique_ptr<VarmaModelset> varma;
  double *work = nullptr;
  int *workI = nullptr;
  ModelSet &ms() { return sur ? sur->Modelset : dc ? dc->Modelset : varma->Modelset; }
  std::vector<Cand> cands;
  std::vector<Result> alone;
  std::vector<uint64_t> alone_ev; // how long each takes
  double &at(int r, int c) { return raw[(size_t)c * rows + r]; }
};
inline const char *kname(int k) { return k == SUR ? "SUR" : k == DC ? "discrete choice" : "VARMA"; }

// ------------------------------------------------------------------ generation
inline void gen_mets(Search &W, const Opts &o) {
  using namespace sim;
  Script &S = W.S;
  std::vector<std::string> ins = {"aic", "sic"}, outs;
  if (W.kind == DC) {
    ins.push_back("brierIn"), ins.push_back("frequencyCostIn"), ins.push_back("aucIn");
    outs = {"brierOut", "frequencyCostOut", "aucOut"};
  } else {
    outs = {"sign", "mae", "mape", "rmse", "rmspe", "crps"};
    if (W.kind == VARMA) outs.push_back("direction");
  }
  int ni = chi(0, 2), no = o.out ? chi(1, 2) : chi(0, 2);
  if (ni + no == 0) ni = 1;
  auto take = [&](std::vector<std::string> &from, std::vector<std::string> &to) {
    size_t i = ch(from.size());
    to.push_back(from[i]);
    from.erase(from.begin() + i);
  };
  for (int i = 0; i < ni; i++) take(ins, S.in);
  for (int i = 0; i < no; i++) take(outs, S.out);
  auto &m = W.met;
  for (auto &s : S.in) m.MetricsIn.push_back(wl::gof(s));
  for (auto &s : S.out) m.MetricsOut.push_back(wl::scr(s));
  m.SimFixSize = no ? chi(1, W.kind == VARMA ? 3 : 4) : 0;
  if (no && W.kind != VARMA) {
    if (chance(0.4)) m.TrainFixSize = std::max(2, (int)(W.rows * (0.4 + 0.4 * chreal())));
    else m.TrainRatio = 0.4 + 0.45 * chreal();
  }
  m.Seed = W.kind == VARMA ? 0 : chance(0.3) ? -chi(1, 1000) : chi(1, 1000);
  if (W.kind == VARMA && no) {
    int nh = chi(1, 2);
    for (int h = 1; h <= nh; h++) m.Horizons.push_back(h);
    if (chance(0.2)) m.Horizons = {2};
  }
  if (chance(0.4))
    for (int i = 0; i < S.nmet(); i++)
      if (chance(0.6)) {
        std::vector<double> v;
        for (int t = 0; t < S.targets; t++) v.push_back((chi(0, 20) - 5) * 0.5);
        S.minMetric[S.name(i)] = v;
        if (i < (int)S.in.size()) m.MinMetricIn[wl::gof(S.name(i))] = v;
        else m.MinMetricOut[wl::scr(S.name(i))] = v;
      }
  if (W.kind == DC) m.WeightedEval = chance(0.5);
  if (no) W.checks.MinOutSim = chi(0, m.SimFixSize);
}
inline void gen_items(Search &W, const Opts &o) {
  using namespace sim;
  auto &it = W.items;
  it.KeepModelEvaluations = true;
  it.KeepInclusionWeights = chance(0.5);
  it.KeepBestCount = chi(0, 4);
  it.KeepAll = o.keepall || chance(0.5);
  it.KeepMixture = chance(0.5);
  if (chance(0.5))
    for (int i = chi(1, 2); i > 0; i--) it.CdfsAt.push_back((chi(0, 20) - 10) * 0.2);
  it.ExtremeBoundsMultiplier = chance(0.5) ? pick(std::vector<double>{2, 1, 0.25}) : 0;
  it.LengthTargets = W.S.targets;
  it.LengthEndogenous = W.S.nEndo;
  it.LengthExogenous = W.S.nExo;
}
inline void gen_combos(Search &W, const Opts &o, int lo, int hi, int maxsize, int fix) {
  using namespace sim;
  W.comb.Partitions = wl::groups(lo, hi, 2);
  if (fix && W.comb.Partitions[0].size() > 1) { // the fixed partition of a discrete-choice search is its intercept
    auto p = W.comb.Partitions[0];
    W.comb.Partitions[0] = {p[0]};
    p.erase(p.begin());
    W.comb.Partitions.insert(W.comb.Partitions.begin() + 1, p);
  }
  int np = (int)W.comb.Partitions.size();
  std::set<int> sizes;
  for (int i = chi(1, 2); i > 0; i--) sizes.insert(chi(1, std::min(np, maxsize)));
  W.comb.Sizes.assign(sizes.begin(), sizes.end());
  if (sizes.size() == 2 && chance(0.2)) std::swap(W.comb.Sizes[0], W.comb.Sizes[1]);
  W.comb.NumFixPartitions = fix ? 1 : chance(0.25) ? chi(0, *sizes.begin()) : 0;
  W.comb.NumFixItems = 0;
  W.comb.NumTargets = W.S.targets;
}
inline double gen_limit(double centre, double spread) { return sim::chance(0.25) ? centre + (sim::chreal() - 0.5) * spread : INFINITY; }
inline void gen_sur(Search &W, const Opts &o, sim::Rng &r) {
  using namespace sim;
  Script &S = W.S;
  S.innerExo = false;
  S.nEndo = chi(1, 3);
  S.nExo = chi(1, o.small ? 3 : 5);
  S.targets = chi(1, S.nEndo);
  W.rows = o.trouble ? chi(6, 16) : chi(14, 30);
  W.cols = S.nEndo + S.nExo;
  W.raw.assign((size_t)W.rows * W.cols, 0);
  bool positive = chance(0.3);
  for (int i = 0; i < W.rows; i++) {
    for (int j = 0; j < S.nExo; j++) W.at(i, S.nEndo + j) = r.normal();
    for (int e = 0; e < S.nEndo; e++) {
      double v = positive ? 3 : 0.5;
      for (int j = 0; j < S.nExo; j++) v += 0.3 * ((e + j) % 3 - 0.7) * W.at(i, S.nEndo + j);
      v += 0.6 * r.normal();
      W.at(i, e) = positive ? std::fabs(v) + 0.1 : v;
    }
  }
  if (chance(0.5))
    for (int i = 0; i < W.rows; i++) W.at(i, S.nEndo) = 1; // intercept
  if (S.nExo > 1 && chance(o.trouble ? 0.6 : 0.15)) {         // collinear variables
    int a = chi(0, S.nExo - 1), b = chi(0, S.nExo - 1);
    for (int i = 0; i < W.rows; i++) W.at(i, S.nEndo + a) = W.at(i, S.nEndo + b) * 2;
  }
  if (S.nEndo > 1 && chance(o.trouble ? 0.3 : 0)) // identical equations: singular residual variance
    for (int i = 0; i < W.rows; i++) W.at(i, 1) = W.at(i, 0);
  if (chance(0.4))
    for (int q = chi(1, o.trouble ? 8 : 4); q > 0; q--) W.at(chi(0, W.rows - 1), chi(0, W.cols - 1)) = NAN;
  gen_combos(W, o, S.nEndo, S.nEndo + S.nExo, 3, 0);
  for (int g = chi(1, 3); g > 0; g--) {
    VI v;
    for (int e = 0; e < S.nEndo; e++)
      if (chance(0.5)) v.push_back(e);
    if (v.empty()) v.push_back(chi(0, S.nEndo - 1));
    bool dup = false;
    for (auto &q : W.comb.InnerGroups) dup |= q == v;
    if (!dup) W.comb.InnerGroups.push_back(v);
  }
  bool any = false;
  for (auto &g : W.comb.InnerGroups) any |= g[0] < S.targets;
  if (!any) {
    W.comb.InnerGroups[0] = {0};
    for (size_t i = 1; i < W.comb.InnerGroups.size(); i++)
      if (W.comb.InnerGroups[i] == VI{0}) W.comb.InnerGroups.erase(W.comb.InnerGroups.begin() + i--);
  }
  gen_mets(W, o);
  gen_items(W, o);
  W.checks.Estimation = chance(0.6);
  W.items.Length1 = W.checks.Estimation && chance(0.7) ? S.nExo : 0;
  S.len1 = W.items.Length1;
  if (chance(0.3)) W.checks.MinObsCount = chi(1, W.rows);
  if (chance(0.3)) W.checks.MinDof = chi(1, W.rows - 1);
  W.checks.MaxAic = gen_limit(W.rows * 2, W.rows * 2);
  W.checks.MaxSic = gen_limit(W.rows * 2, W.rows * 2);
  W.checks.MinR2 = chance(0.2) ? chreal() * 0.5 : -INFINITY;
  W.checks.MaxConditionNumber = chance(0.3) ? std::pow(10.0, chreal() * 4) : INFINITY;
  if (chance(0.25)) {
    W.sigIter = chi(1, 3);
    W.sigProb = chance(0.5) ? 0.1 : 0.4;
  }
  if (chance(0.3))
    for (int e = 0; e < S.nEndo; e++) W.data.Lambdas.push_back(chance(0.2) ? NAN : pick(std::vector<double>{1, 0.5, 0, -0.2}));
}
inline void gen_dc(Search &W, const Opts &o, sim::Rng &r) {
  using namespace sim;
  Script &S = W.S;
  S.innerExo = false;
  S.nEndo = S.targets = 1;
  S.nExo = chi(2, o.small ? 3 : 5);
  S.hasWeight = chance(0.4);
  S.extraLen = 1;
  W.choices = chance(0.3) ? 3 : 2;
  W.rows = o.trouble ? chi(8, 18) : chi(16, 34);
  W.cols = 1 + S.hasWeight + S.nExo;
  W.raw.assign((size_t)W.rows * W.cols, 0);
  int x0 = 1 + S.hasWeight;
  for (int i = 0; i < W.rows; i++) {
    double s = r.normal();
    for (int j = 0; j < S.nExo; j++) {
      W.at(i, x0 + j) = j ? r.normal() : 1;
      if (j) s += 0.6 * (j % 2 ? 1 : -0.5) * W.at(i, x0 + j);
    }
    int c = 0;
    for (int q = 1; q < W.choices; q++)
      if (s > (q - W.choices / 2.0) * 0.9) c = q;
    W.at(i, 0) = c;
    if (S.hasWeight) W.at(i, 1) = 0.5 + r.real();
  }
  for (int q = 0; q < W.choices && q < W.rows; q++) W.at(q, 0) = q;
  if (S.nExo > 2 && chance(o.trouble ? 0.6 : 0.1))
    for (int i = 0; i < W.rows; i++) W.at(i, x0 + S.nExo - 1) = chance(0.5) ? W.at(i, x0 + 1) : 2;
  if (chance(o.trouble ? 0.4 : 0.1)) // perfectly separated
    for (int i = 0; i < W.rows; i++) W.at(i, x0 + 1) = W.at(i, 0) + 0.01 * r.normal();
  if (chance(0.3))
    for (int q = chi(1, 3); q > 0; q--) W.at(chi(W.choices, W.rows - 1), chance(0.3) ? 0 : x0 + chi(1, S.nExo - 1)) = NAN;
  gen_combos(W, o, 1, 1 + S.nExo, 3, 1);
  gen_mets(W, o);
  bool cost = false;
  for (auto &n : S.in) cost |= n == "frequencyCostIn";
  for (auto &n : S.out) cost |= n == "frequencyCostOut";
  if (cost)
    for (int q = chi(1, 2); q > 0; q--) {
      int t = chi(2, 3);
      std::vector<double> d((size_t)t * (W.choices + 1));
      for (int j = 0; j < t; j++) {
        d[j] = j == t - 1 ? 1.0 : (j + 1.0) / t;
        for (int c = 0; c < W.choices; c++) d[(size_t)(1 + c) * t + j] = chi(0, 4) * 0.25;
      }
      W.costd.push_back(d);
    }
  gen_items(W, o);
  W.checks.Estimation = chance(0.6);
  W.items.Length1 = W.checks.Estimation && chance(0.7) ? S.nExo + W.choices - 2 : 0;
  S.len1 = W.items.Length1;
  if (chance(0.3)) W.checks.MinObsCount = chi(1, W.rows);
  W.checks.MaxAic = gen_limit(W.rows * 1.2, W.rows);
  W.checks.MaxSic = gen_limit(W.rows * 1.2, W.rows);
  W.checks.MaxConditionNumber = chance(0.3) ? std::pow(10.0, chreal() * 4) : INFINITY;
  W.logit = chance(0.7);
  W.probit = !W.logit || chance(0.5);
  if (chance(0.3)) W.newton.IterationMax = chi(1, 20);
  W.newton.UseLineSearch = chance(0.6);
  if (chance(0.2)) W.roc.LowerThreshold = 0.2, W.roc.UpperThreshold = 0.8;
  if (chance(0.2)) W.roc.Pessimistic = true;
  if (chance(0.2)) W.roc.Epsilon = 0.05;
}
inline void gen_varma(Search &W, const Opts &o, sim::Rng &r) {
  using namespace sim;
  Script &S = W.S;
  S.innerExo = true;
  S.nEndo = chi(1, 3);
  S.nExo = chi(0, 2);
  S.targets = chi(1, S.nEndo);
  S.extraLen = 6;
  int T = chi(o.trouble ? 10 : 18, 30);
  W.future = chi(0, 4);
  W.rows = T + W.future;
  W.cols = S.nEndo + S.nExo;
  W.raw.assign((size_t)W.rows * W.cols, 0);
  bool positive = chance(0.3);
  for (int j = 0; j < S.nExo; j++)
    for (int i = 0; i < W.rows; i++) W.at(i, S.nEndo + j) = r.normal();
  for (int e = 0; e < S.nEndo; e++) {
    double p = 0;
    for (int i = 0; i < W.rows; i++) {
      p = 0.5 * p + r.normal() + (S.nExo ? 0.5 * W.at(i, S.nEndo) : 0);
      W.at(i, e) = i >= T ? NAN : positive ? std::exp(0.3 * p) + 0.1 : p;
    }
  }
  if (S.nExo && chance(0.4))
    for (int i = 0; i < W.rows; i++) W.at(i, S.nEndo) = 1;
  if (S.nExo > 1 && chance(o.trouble ? 0.5 : 0.1))
    for (int i = 0; i < W.rows; i++) W.at(i, S.nEndo + 1) = W.at(i, S.nEndo) * 2;
  if (S.nEndo > 1 && chance(o.trouble ? 0.4 : 0.05))
    for (int i = 0; i < T; i++) W.at(i, 1) = W.at(i, 0);
  // variables that start later; all end together, as the library's data preparation leaves them
  if (chance(0.4)) {
    int c = chi(0, W.cols - 1);
    for (int i = chi(1, 4) - 1; i >= 0; i--) W.at(i, c) = NAN;
  }
  gen_combos(W, o, 0, S.nEndo, 2, 0);
  int ng = S.nExo ? chi(1, 2) : 1;
  for (int g = 0; g < ng; g++) {
    VI v;
    for (int i = 0; i < S.nExo; i++)
      if (chance(0.5)) v.push_back(S.nEndo + i);
    bool dup = false;
    for (auto &q : W.comb.InnerGroups) dup |= q == v;
    if (!dup) W.comb.InnerGroups.push_back(v);
  }
  if (S.nExo == 0 && chance(0.5)) W.comb.InnerGroups.clear();
  gen_mets(W, o);
  gen_items(W, o);
  W.season = chance(0.3) ? 4 : 0;
  W.maxPar = {chi(0, o.small ? 1 : 2), chance(0.3), chance(0.3), W.season ? (int)ch(2) : 0, 0, W.season && chance(0.2)};
  if (!W.maxPar[0] && !W.maxPar[2] && !W.maxPar[3] && !W.maxPar[5]) W.maxPar[0] = 1;
  W.checks.Estimation = chance(0.6);
  if (chance(0.6)) {
    W.checks.Estimation = W.checks.Prediction = true;
    W.horizon = chi(1, 3);
    for (int h : W.met.Horizons) W.horizon = std::max(W.horizon, h);
    W.items.Length1 = chance(0.7) ? W.horizon : 0;
    S.len1 = W.items.Length1;
    if (chance(0.15)) W.horizon += 3; // beyond the known exogenous data
    if (chance(0.4)) { // limits for the predictions of the targets
      for (int k = 0; k < 2; k++) {
        std::vector<double> d((size_t)W.horizon * S.targets);
        for (auto &x : d) x = (k ? 1 : -1) * (0.2 + 4 * chreal());
        W.costd.push_back(d);
      }
    }
    if (W.S.len1 && W.S.len1 != W.horizon) W.items.Length1 = W.S.len1 = W.horizon;
  }
  if (chance(0.3)) W.checks.MinObsCount = chi(1, T);
  W.checks.MaxAic = gen_limit(3, 6);
  W.checks.MaxSic = gen_limit(3, 6);
  W.checks.MaxConditionNumber = chance(0.3) ? std::pow(10.0, chreal() * 4) : INFINITY;
  W.usePrev = chance(0.5);
  if (chance(0.3)) W.stdMult = 1;
  W.lb.IterationMax = chi(2, 20);
  if (chance(0.3))
    for (int e = 0; e < S.nEndo; e++) W.data.Lambdas.push_back(chance(0.2) ? NAN : pick(std::vector<double>{1, 0.5, 0}));
}
inline void gen(Search &W, const Opts &o) {
  using namespace sim;
  W.kind = o.kind >= 0 ? o.kind : (int)ch(3);
  Rng r(chseed());
  if (W.kind == SUR) gen_sur(W, o, r);
  else if (W.kind == DC) gen_dc(W, o, r);
  else gen_varma(W, o, r);
  W.data.Data = Matrix<Tv>(W.raw.data(), W.rows, W.cols);
  W.data.NumEndo = W.S.nEndo;
  W.data.NumExo = W.S.nExo;
  W.data.HasIntercept = false;
  W.data.HasWeight = W.S.hasWeight;
  W.opt.ReportInterval = 0;
  if (W.kind == DC)
    for (auto &d : W.costd) W.costs.push_back(Matrix<Tv>(d.data(), (Ti)d.size() / (W.choices + 1), W.choices + 1));
  if (W.kind == VARMA && W.costd.size() == 2) {
    W.checks.PredictionLower = Matrix<Tv>(W.costd[0].data(), W.horizon, W.S.targets);
    W.checks.PredictionUpper = Matrix<Tv>(W.costd[1].data(), W.horizon, W.S.targets);
  }
  if (W.kind == VARMA) {
    W.tdata.resize(W.raw.size());
    for (int i = 0; i < W.rows; i++)
      for (int c = 0; c < W.cols; c++) W.tdata[(size_t)i * W.cols + c] = W.at(i, c);
    W.tmat = Matrix<Tv>(W.tdata.data(), W.cols, W.rows);
  }
  // the candidates
  unsigned co = 0;
  long Seed = W.met.Seed;
  for (int s : W.comb.Sizes) {
    auto sets = oracle::enumerate(W.comb.Partitions, s, W.comb.NumFixPartitions);
    if (W.kind == SUR) {
      if (W.comb.NumFixPartitions > s) continue;
      for (auto &g : W.comb.InnerGroups) {
        if (wl::targets_of(g, W.S.targets).empty()) continue;
        unsigned seed = Seed < 0 ? (unsigned)-Seed : (unsigned)(Seed + co);
        co++;
        for (auto &c : sets) {
          Cand k;
          k.endo = g, k.exo = c, k.seed = seed;
          W.cands.push_back(k);
        }
      }
    } else if (W.kind == DC) {
      co++;
      unsigned seed = Seed < 0 ? (unsigned)-Seed : (unsigned)(Seed + co);
      for (int d = 0; d < 2; d++)
        if (d ? W.probit : W.logit)
          for (auto &c : sets) {
            Cand k;
            k.endo = {0}, k.exo = c, k.seed = seed, k.probit = d;
            k.extra = {d ? (int)DiscreteChoiceDistType::kProbit : (int)DiscreteChoiceDistType::kLogit};
            W.cands.push_back(k);
          }
    } else {
      auto groups = W.comb.InnerGroups;
      if (groups.empty()) groups.push_back({});
      auto &M = W.maxPar;
      for (int p = 0; p <= M[0]; p++)
        for (int d = 0; d <= M[1]; d++)
          for (int q = 0; q <= M[2]; q++)
            for (int P = 0; P <= M[3]; P++)
              for (int D = 0; D <= M[4]; D++)
                for (int Q = 0; Q <= M[5]; Q++) {
                  if (!p && !q && !P && !Q) continue;
                  for (auto &g : groups)
                    for (auto &c : sets) {
                      if (wl::targets_of(c, W.S.targets).empty()) continue;
                      Cand k;
                      k.endo = c, k.exo = g, k.extra = k.par = {p, d, q, P, D, Q};
                      W.cands.push_back(k);
                    }
                }
    }
  }
  if (W.cands.size() > (o.small ? 14u : 60u)) discard("many candidates");
}

// ------------------------------------------------------------------ one candidate alone
struct Buf {
  std::unique_ptr<double[]> d;
  Buf(Ti n) : d(new double[n > 0 ? n : 1]()) {}
  operator double *() { return d.get(); }
};
inline bool has(const Script &S) { return !S.out.empty(); }
struct Reject { std::string why; };
inline void common_checks(const Search &W, double cn, double aic, double sic) {
  if (W.checks.mCheckCN_all && cn > W.checks.MaxConditionNumber) throw Reject{"cn"};
  if (aic > W.checks.MaxAic) throw Reject{"aic"};
  if (sic > W.checks.MaxSic) throw Reject{"sic"};
}
// complete rows of the given columns
inline std::vector<double> complete(Search &W, const VI &cols, int &n) {
  std::vector<int> ok;
  for (int i = 0; i < W.rows; i++) {
    bool g = true;
    for (int c : cols) g &= !std::isnan(W.at(i, c));
    if (g) ok.push_back(i);
  }
  n = (int)ok.size();
  std::vector<double> m;
  m.reserve((size_t)n * cols.size() + 1);
  for (int c : cols)
    for (int i : ok) m.push_back(W.at(i, c));
  return m;
}
inline void alone_sur(Search &W, const Cand &c, Result &o) {
  VI cols = c.endo;
  cols.insert(cols.end(), c.exo.begin(), c.exo.end());
  int n, m = (int)c.endo.size(), k = (int)c.exo.size();
  auto d = complete(W, cols, n);
  Matrix<Tv> mat(d.data(), n, m + k);
  Buf Rd(m * k * m * k);
  bool sig = W.sigIter > 0;
  bool no = false;
  size_t nin = W.S.in.size();
  auto tg = wl::targets_of(c.endo, W.S.targets);
  std::vector<int> eq;
  for (int t : tg) eq.push_back((int)(std::find(c.endo.begin(), c.endo.end(), t) - c.endo.begin()));
  if (W.checks.Estimation) {
    if (W.checks.MinObsCount > n) throw Reject{"obs"};
    if (W.checks.MinDof > 0 && W.checks.MinDof > n - k) throw Reject{"dof"};
    Matrix<Tv> R(Rd, m * k, m * k);
    SurExtended D(n, m, k, sig, false, true, 0, W.sigIter, false, nullptr, nullptr);
    Buf st(D.StorageSize), wk(D.WorkSize);
    D.Calculate(mat, m, st, wk, sig ? &R : nullptr, W.sigProb, nullptr, nullptr);
    common_checks(W, D.Model.condition_number, D.Model.Aic, D.Model.Sic);
    if (W.checks.MinR2 > D.Model.r2) throw Reject{"r2"};
    for (size_t i = 0; i < nin; i++)
      for (size_t j = 0; j < tg.size(); j++) o.metric[i][j] = W.S.in[i] == "aic" ? D.Model.Aic : D.Model.Sic;
    for (int q = 0; q < k && W.S.len1; q++)
      for (size_t j = 0; j < tg.size(); j++) {
        o.mean[c.exo[q] - W.S.nEndo][j] = D.Model.beta.Get0(q, eq[j]);
        double s = D.Model.e_beta_std.Get0(q, eq[j]);
        o.var[c.exo[q] - W.S.nEndo][j] = s * s;
      }
  }
  if (has(W.S)) {
    Matrix<Tv> R(Rd, m * k, m * k);
    SurSimulation M(n, m, k, W.met.TrainRatio, W.met.TrainFixSize, W.met.MetricsOut, sig, W.sigIter, nullptr, nullptr);
    Buf st(M.StorageSize), wk(M.WorkSize);
    std::vector<double> lam;
    if (!W.data.Lambdas.empty())
      for (int e : c.endo) lam.push_back(W.data.Lambdas[e]);
    M.Calculate(mat, m, st, wk, sig ? &R : nullptr, no, W.met.SimFixSize, c.seed, W.sigProb, W.checks.mCheckCN ? W.checks.MaxConditionNumber : INFINITY, W.met.SimFixSize - W.checks.MinOutSim, lam.empty() ? nullptr : &lam);
    for (size_t i = 0; i < W.S.out.size(); i++)
      for (size_t j = 0; j < tg.size(); j++) o.metric[nin + i][j] = M.Results.Get0((Ti)i, eq[j]);
  }
}
template <bool HW, DiscreteChoiceModelType MT, DiscreteChoiceDistType DT> void alone_dc_t(Search &W, const Cand &c, Result &o) {
  VI cols = {0};
  if (HW) cols.push_back(1);
  for (int e : c.exo) cols.push_back(e + HW);
  int n, k = (int)c.exo.size();
  auto d = complete(W, cols, n);
  Matrix<Tv> mat(d.data(), n, (Ti)cols.size()), y(d.data(), n, 1), w(d.data() + (HW ? n : 0), n, 1), x(d.data() + n * (1 + HW), n, k);
  bool no = false;
  size_t nin = W.S.in.size();
  if (W.checks.Estimation) {
    if (W.checks.MinObsCount > n) throw Reject{"obs"};
    DiscreteChoice<MT, DT> D(n, k, W.choices, false);
    D.Optim.IterationMax = W.newton.IterationMax;
    D.Optim.TolFunction = W.newton.TolFunction;
    D.Optim.TolGradient = W.newton.TolGradient;
    D.Optim.UseLineSearch = W.newton.UseLineSearch;
    Buf st(D.StorageSize), wk(D.WorkSize);
    D.Calculate(y, x, HW ? &w : nullptr, st, wk, W.choices, true);
    common_checks(W, D.condition_number, D.Aic, D.Sic);
    bool ev = HW && W.met.WeightedEval;
    Buf pd(n * W.choices), pw(n + W.choices);
    Matrix<Tv> P(pd, n, W.choices);
    for (size_t i = 0; i < nin; i++) {
      auto &nm = W.S.in[i];
      double v;
      if (nm == "aic") v = D.Aic;
      else if (nm == "sic") v = D.Sic;
      else {
        D.GetProbabilities(x, P, pw);
        if (nm == "brierIn") {
          double s = 0, sw = 0;
          for (int r = 0; r < n; r++) {
            double ww = ev ? w.Data[r] : 1, e = y.Data[r] - P.Data[n + r];
            s += ww * e * e;
            sw += ww;
          }
          v = s / sw;
        } else if (nm == "frequencyCostIn") {
          std::unique_ptr<FrequencyCostBase> f;
          if (ev) f.reset(new FrequencyCost<true>((Ti)W.costs.size()));
          else f.reset(new FrequencyCost<false>((Ti)W.costs.size()));
          Buf fs(f->StorageSize);
          f->Calculate(W.costs, y, P, ev ? &w : nullptr, fs);
          v = f->AverageRatio;
        } else {
          std::unique_ptr<RocBase> f;
          if (ev) f.reset(new ROC<true, false>(n));
          else f.reset(new ROC<false, false>(n));
          f->Calculate(y, P, ev ? &w : nullptr, W.roc);
          v = f->Result;
        }
      }
      o.metric[i][0] = v;
    }
    for (int q = 0; q < k && W.S.len1; q++) {
      o.mean[c.exo[q] - 1][0] = D.Beta.Data[q];
      o.var[c.exo[q] - 1][0] = D.BetaVar.Get0(q, q);
    }
  }
  if (has(W.S)) {
    bool br = false, au = false;
    for (auto &s : W.S.out) br |= s == "brierOut", au |= s == "aucOut";
    DiscreteChoiceSim<HW, MT, DT> M(n, (Ti)cols.size(), W.choices, W.met.TrainRatio, W.met.TrainFixSize, (Ti)W.costs.size(), br, au, false, nullptr, W.met.WeightedEval);
    M.Seed = c.seed;
    M.SimulationMax = W.met.SimFixSize;
    M.Optim.IterationMax = W.newton.IterationMax;
    M.Optim.TolFunction = W.newton.TolFunction;
    M.Optim.TolGradient = W.newton.TolGradient;
    M.Optim.UseLineSearch = W.newton.UseLineSearch;
    Buf st(M.StorageSize), wk(M.WorkSize);
    std::unique_ptr<int[]> wi(new int[M.WorkSizeI + 1]());
    M.Calculate(mat, &W.costs, st, wk, wi.get(), no, W.roc, true, nullptr, W.met.SimFixSize - W.checks.MinOutSim);
    for (size_t i = 0; i < W.S.out.size(); i++) {
      auto &s = W.S.out[i];
      o.metric[nin + i][0] = s == "brierOut" ? M.BrierScore : s == "aucOut" ? M.Auc : M.CostRatios.Mean();
    }
  }
}
inline void alone_dc(Search &W, const Cand &c, Result &o) {
  using MT = DiscreteChoiceModelType;
  using DT = DiscreteChoiceDistType;
  int key = (W.S.hasWeight ? 4 : 0) + (W.choices > 2 ? 2 : 0) + c.probit;
  switch (key) {
  case 0: return alone_dc_t<false, MT::kBinary, DT::kLogit>(W, c, o);
  case 1: return alone_dc_t<false, MT::kBinary, DT::kProbit>(W, c, o);
  case 2: return alone_dc_t<false, MT::kOrdered, DT::kLogit>(W, c, o);
  case 3: return alone_dc_t<false, MT::kOrdered, DT::kProbit>(W, c, o);
  case 4: return alone_dc_t<true, MT::kBinary, DT::kLogit>(W, c, o);
  case 5: return alone_dc_t<true, MT::kBinary, DT::kProbit>(W, c, o);
  case 6: return alone_dc_t<true, MT::kOrdered, DT::kLogit>(W, c, o);
  default: return alone_dc_t<true, MT::kOrdered, DT::kProbit>(W, c, o);
  }
}
inline void alone_varma(Search &W, const Cand &c, Result &o) {
  int m = (int)c.endo.size(), k = (int)c.exo.size();
  int start = 0, end = W.rows - 1;
  auto span = [&](int v) {
    int a = 0, b = W.rows - 1;
    while (a < W.rows && std::isnan(W.at(a, v))) a++;
    while (b >= 0 && std::isnan(W.at(b, v))) b--;
    start = std::max(start, a);
    end = std::min(end, b);
  };
  for (int v : c.endo) span(v);
  for (int v : c.exo) span(v);
  int T = end - start + 1;
  std::vector<double> yd, xd;
  yd.reserve((size_t)T * m);
  xd.reserve((size_t)(W.rows - start) * k + 1);
  for (int t = start; t <= end; t++)
    for (int v : c.endo) yd.push_back(W.at(t, v));
  for (int t = start; t < W.rows; t++)
    for (int v : c.exo) xd.push_back(W.at(t, v));
  Matrix<Tv> Y(yd.data(), m, T), X(xd.data(), k, W.rows - start);
  auto &p = c.par;
  VarmaSizes sz(T, m, k, p[0], p[1], p[2], p[3], p[4], p[5], W.season, true);
  VarmaRestriction rs;
  std::unique_ptr<Buf> rd;
  if (p[2] || p[5]) {
    rs = VarmaRestriction(sz, VarmaRestrictionType::kMaFinal);
    rd = std::make_unique<Buf>(rs.StorageSize);
    rs.Calculate(*rd);
  }
  Matrix<Tv> *R = rs.IsRestricted ? &rs.R : nullptr;
  auto tg = wl::targets_of(c.endo, W.S.targets);
  std::vector<int> eq;
  for (int t : tg) eq.push_back((int)(std::find(c.endo.begin(), c.endo.end(), t) - c.endo.begin()));
  bool no = false;
  size_t nin = W.S.in.size();
  auto lb = W.lb;
  if (W.checks.Estimation) {
    if (W.checks.MinObsCount > T) throw Reject{"obs"};
    Varma D(sz, true, true, true, &lb);
    Buf st(D.Result.StorageSize), wk(D.Result.WorkSize);
    D.EstimateMl(Y, k ? &X : nullptr, wk, st, R, nullptr, 0, false, W.stdMult, W.checks.mCheckCN_all ? W.checks.MaxConditionNumber : INFINITY);
    if (D.Result.Aic > W.checks.MaxAic) throw Reject{"aic"};
    if (D.Result.Sic > W.checks.MaxSic) throw Reject{"sic"};
    if (W.checks.Prediction) {
      VarmaForecast F(sz, W.horizon, true);
      Buf fs(F.StorageSize), fw(F.WorkSize);
      try {
        F.Calculate(D, k ? &X : nullptr, &Y, fs, fw, W.horizon, false);
      } catch (...) {
        throw Reject{"forecast"};
      }
      for (int i = 0; i < F.Forecast.RowsCount; i++)
        for (int h = 0; h < W.horizon; h++)
          if (std::isnan(F.Forecast.Get0(i, F.StartIndex + h))) throw Reject{"nan"};
      if (W.checks.PredictionLower.Data)
        for (size_t j = 0; j < tg.size(); j++)
          for (int h : W.met.Horizons) {
            double f = F.Forecast.Get0(eq[j], F.StartIndex + h - 1);
            if (f < W.checks.PredictionLower.Get0(h - 1, tg[j]) || f > W.checks.PredictionUpper.Get0(h - 1, tg[j])) throw Reject{"bounds"};
          }
      for (int h = 0; h < W.S.len1; h++)
        for (size_t j = 0; j < tg.size(); j++) {
          o.mean[h][j] = F.Forecast.Get0(eq[j], F.StartIndex + h);
          o.var[h][j] = F.Variance.Get0(eq[j], F.StartIndex + h);
        }
    }
    for (size_t i = 0; i < nin; i++)
      for (size_t j = 0; j < tg.size(); j++) o.metric[i][j] = W.S.in[i] == "aic" ? D.Result.Aic : D.Result.Sic;
  }
  if (has(W.S)) {
    VarmaSimulation M(sz, W.met.SimFixSize, W.met.Horizons, W.met.MetricsOut, &lb);
    Buf st(M.StorageSize), wk(M.WorkSize);
    std::vector<double> lam;
    if (!W.data.Lambdas.empty())
      for (int e : c.endo) lam.push_back(W.data.Lambdas[e]);
    int cnt = M.mCount;
    M.Calculate(st, wk, Y, no, k ? &X : nullptr, R, nullptr, W.usePrev, W.checks.mCheckCN ? W.checks.MaxConditionNumber : INFINITY, W.stdMult, false, cnt - W.checks.MinOutSim, lam.empty() ? nullptr : &lam);
    if (M.ValidCounts == 0) throw Reject{"no valid"};
    for (size_t i = 0; i < W.S.out.size(); i++)
      for (size_t j = 0; j < tg.size(); j++) o.metric[nin + i][j] = M.ResultAggs.Get0((Ti)i, eq[j]);
  }
}
inline Result blank(const Search &W, const Cand &c) {
  Result o;
  size_t nt = wl::targets_of(c.endo, W.S.targets).size();
  o.metric.assign(W.S.nmet(), std::vector<double>(nt, NAN));
  o.mean.assign(W.S.len1, std::vector<double>(nt, NAN));
  o.var = o.mean;
  o.extra = c.extra;
  return o;
}
inline sim::World quiet(const sim::World &w0) {
  sim::World w = w0;
  w.omp_threads = 1;
  w.policy = sim::P_SERIAL;
  w.rules.clear();
  w.fill = sim::FILL_ZERO;
  w.race_fatal = w.oob_fatal = w.leak_fatal = false;
  w.event_budget = 800000000;
  return w;
}
// every candidate alone; needs the (updated) options of a constructed search
inline uint64_t evaluate_alone(Search &W, const sim::World &w0) {
  W.alone.clear();
  W.alone_ev.clear();
  sim::begin(quiet(w0));
  for (auto &c : W.cands) {
    Result o = blank(W, c);
    uint64_t ev0 = sim::events_now();
    sim::Outcome q = sim::sut([&] {
      try {
        if (W.kind == SUR) alone_sur(W, c, o);
        else if (W.kind == DC) alone_dc(W, c, o);
        else alone_varma(W, c, o);
      } catch (const Reject &r) {
        o.fail = wl::INT; // rejected by a limit of the search: its message is the search's
        sim::Harness h;
        o.msg = r.why;
      }
    });
    if (!q.ok) {
      sim::Harness h;
      o.fail = wl::ERRTEXT;
      o.msg = q.what;
    }
    bool any = false;
    for (auto &row : o.metric)
      for (double v : row) any |= !std::isnan(v);
    if (o.fail == wl::OK && !any) o.fail = wl::ALLNAN;
    Result keep = o; // (a copy that the harness owns)
    W.alone.push_back(keep);
    W.alone_ev.push_back(sim::events_now() - ev0);
  }
  return sim::end(false).events;
}

// ------------------------------------------------------------------ the search
inline sim::Outcome construct(Search &W) {
  return sim::sut([&] {
    if (W.kind == SUR)
      W.sur = std::make_unique<SurModelset>(W.data, W.comb, W.opt, W.items, W.met, W.checks, W.sigIter, W.sigProb);
    else if (W.kind == DC)
      W.dc.reset(DiscreteChoiceModelsetBase::GetFromTypes(W.choices == 2, W.S.hasWeight, W.data, W.comb, W.opt, W.items, W.met, W.checks, W.data.Data, W.costs, W.logit, W.probit, W.newton, W.roc));
    else {
      W.src = std::make_unique<DatasetTs<true>>(W.cols, W.rows, true, true);
      W.src->Data(W.tmat);
      W.varma = std::make_unique<VarmaModelset>(W.data, W.comb, W.opt, W.items, W.met, W.checks, *W.src, W.maxPar, W.season, W.usePrev, &W.lb, W.stdMult, W.horizon);
    }
  });
}
inline sim::Outcome start(Search &W, int fill, uint64_t fs) {
  W.work = (double *)sim::arena_new(sizeof(double) * (size_t)W.ms().WorkSize, fill, fs, "work");
  W.workI = (int *)sim::arena_new(sizeof(int) * (size_t)W.ms().WorkSizeI, fill, fs, "workI");
  return sim::sut([&] { W.ms().Start(W.work, W.workI); });
}
inline void destroy(Search &W) {
  sim::sut([&] {
    W.sur.reset();
    W.dc.reset();
    W.varma.reset();
    W.src.reset();
  });
  sim::arena_free(W.work);
  sim::arena_free(W.workI);
  W.work = nullptr;
  W.workI = nullptr;
}
inline void protect_inputs(Search &W) {
  wl::protect_inputs(W);
  for (auto &d : W.costd) sim::protect(d.data(), d.size() * 8, "a cost matrix or limit");
  if (!W.tdata.empty()) sim::protect(W.tdata.data(), W.tdata.size() * 8, "the time-series data");
  if (!W.data.Lambdas.empty()) sim::protect(W.data.Lambdas.data(), W.data.Lambdas.size() * 8, "the Box-Cox parameters");
}
inline std::string ckey(const Search &W, const VI &endo, const VI &exo, const VI &extra) { return wl::key(endo, exo) + oracle::vs(extra); }
inline void describe(const Search &W, const sim::World &w) {
  sim::describe("%s %s search, %d threads, policy %d, %zu candidates, %d rows, %d endogenous (%d targets), %d exogenous, sizes %s, metrics", W.opt.Parallel ? "parallel" : "sequential", kname(W.kind), w.omp_threads, w.policy, W.cands.size(), W.rows, W.S.nEndo, W.S.targets, W.S.nExo, oracle::vs(W.comb.Sizes).c_str());
  for (int i = 0; i < W.S.nmet(); i++) sim::describe(" %s", W.S.name(i).c_str());
  if (W.met.SimFixSize) sim::describe(", %d simulations, seed %d", W.met.SimFixSize, W.met.Seed);
  if (!W.data.Lambdas.empty()) sim::describe(", Box-Cox");
  if (W.sigIter) sim::describe(", significance search");
}
} // namespace real

// Catalogue: regression, time-series and discrete-choice models and their simulations.
#include "ops.h"
using namespace ops;

static std::vector<ScoringType> sur_metrics(Rng &g) {
  std::vector<ScoringType> all = {ScoringType::kSign, ScoringType::kMae, ScoringType::kMape, ScoringType::kRmse, ScoringType::kRmspe, ScoringType::kCrps};
  std::vector<ScoringType> r;
  for (auto s : all)
    if (g.u(2)) r.push_back(s);
  if (r.empty()) r.push_back(all[g.u(all.size())]);
  return r;
}
static void out_sur(Out &o, const Sur &s, bool det) {
  o.add("gamma", s.gamma);
  o.add("beta", s.beta);
  o.add("yhat", s.yhat);
  o.add("resid", s.resid);
  o.add("resid_var", s.resid_var);
  o.add("logL", s.logLikelihood);
  o.add("cond", s.condition_number);
  o.add("gamma_var", s.gamma_var);
  if (det) {
    o.add("r2", s.r2); o.add("f", s.f); o.add("fp", s.f_prob);
    o.add("aic", s.Aic); o.add("sic", s.Sic); o.add("hqic", s.Hqic);
    o.add("std", s.e_beta_std); o.add("t", s.e_beta_t); o.add("prob", s.e_beta_prob);
  }
}
// ------------------------------------------------------------------ SUR
struct OpSur : OpT<OpSur> {
  int N, m, k, mode, nf; // mode 0 free, 1 restricted, 2 significance search
  bool det, pvar;
  double prob = 0;
  PA d[3], xf;
  std::shared_ptr<Arr> R;
  int q = 0;
  Own<Sur> o;
  Own<SurProjection> p;
  Matrix<Tv> Rm, Y, X;
  void gen(Rng &g) {
    lapack = true;
    N = 10 + g.u(25); m = 1 + g.u(3); k = 1 + g.u(3); mode = g.u(3); det = g.u(2); nf = g.u(4); pvar = g.u(2);
    for (int i = 0; i < 3; i++) d[i] = regdata(g, N, m, k);
    break_data(g, *d[2], k > 1 && g.u(2) ? 2 : 0, k > 1 ? m + 1 : 0);
    xf = randn(g, std::max(1, nf), k);
    if (mode == 1) {
      std::vector<int> idx(m * k);
      for (int i = 0; i < m * k; i++) idx[i] = i;
      for (int i = m * k - 1; i > 0; i--) std::swap(idx[i], idx[g.u(i + 1)]);
      q = 1 + g.u(m * k);
      R = std::make_shared<Arr>(m * k, q);
      for (int j = 0; j < q; j++) (*R)(idx[j], j) = 1;
      if (g.u(2) && q > 1) (*R)(idx[0], 1) = 0.5;
    }
    if (mode == 2) prob = g.u(2) ? 0.05 : 0.3;
  }
  std::string describe() const override {
    char b[160];
    snprintf(b, sizeof b, "SUR N=%d m=%d k=%d mode=%d details=%d forecasts=%d", N, m, k, mode, det, nf);
    return b;
  }
  void construct() override {
    o.make(N, m, k, mode > 0, det, mode == 2 ? 3 : 0);
    if (nf) p.make(nf, m, k, mode > 0, pvar);
  }
  std::vector<size_t> sizes() override {
    std::vector<size_t> s = {(size_t)o->StorageSize, (size_t)o->WorkSize, (size_t)(mode == 2 ? m * k * m * k : 0)};
    s.push_back(nf ? p->StorageSize : 0);
    s.push_back(nf ? p->WorkSize : 0);
    return s;
  }
  void calc(int v, Ctx &c) override {
    Y = Matrix<Tv>(d[v]->d.data(), N, m);
    X = Matrix<Tv>(d[v]->d.data() + N * m, N, k);
    if (mode == 1) Rm = R->m();
    else Rm = Matrix<Tv>(c.b[2], m * k, m * k);
    o->Calculate(Y, X, c.b[0], c.b[1], mode ? &Rm : nullptr, prob);
    if (nf) {
      auto xm = xf->m();
      p->Calculate(*o, xm, c.b[3], c.b[4]);
    }
  }
  void collect(Out &r) override {
    out_sur(r, *o, det);
    if (nf) {
      r.add("means", p->Means);
      if (pvar) { r.add("vars", p->Variances); r.add("cov", p->Covariance); }
    }
    r.add("iter", o->mSigSearchIter);
  }
  void destroy() override { o.kill(); p.kill(); }
  void inputs(const std::function<void(const void *, size_t, const char *)> &f) override {
    for (auto &x : d) in(f, x, "SUR data");
    in(f, xf, "SUR forecast data");
    in(f, R, "SUR restriction");
  }
};
OP(OpSur, 3);

static void gen_pca(Rng &g, PcaAnalysisOptions &o, int cols, int ignore) {
  o.IgnoreFirstCount = ignore;
  if (g.u(2)) o.ExactCount = 1 + g.u(std::max(1, cols - ignore));
  else {
    o.CutoffRate = 0.3 + 0.6 * g.real();
    if (g.u(2)) o.CutoffCountMax = 1 + g.u(3);
  }
}
struct OpSurExt : OpT<OpSurExt> {
  int N, m, k, mode, nf;
  bool chk, det, pvar, hasPy, hasPx;
  PcaAnalysisOptions py, px;
  PA d[3], xf;
  Own<SurExtended> o;
  Matrix<Tv> Rm;
  void gen(Rng &g) {
    lapack = true;
    N = 14 + g.u(20); m = 1 + g.u(4); k = 1 + g.u(4); mode = g.u(2) ? 2 : 0; nf = g.u(3); chk = g.u(2); det = g.u(2); pvar = g.u(2);
    hasPx = k > 2 && g.u(3) == 0; hasPy = m > 2 && g.u(3) == 0;
    if (hasPx) gen_pca(g, px, k, 1);
    if (hasPy) gen_pca(g, py, m, 1);
    for (int i = 0; i < 3; i++) {
      d[i] = regdata(g, N, m, k);
      if (chk)
        for (int j = (int)g.u(4); j > 0; j--) (*d[i])(g.u(N), g.u(m + k)) = NAN;
    }
    break_data(g, *d[2], 1 + g.u(2), k > 1 ? m + 1 : 0);
    xf = randn(g, std::max(1, nf), k);
    for (int i = 0; i < xf->r; i++) (*xf)(i, 0) = 1;
  }
  std::string describe() const override {
    char b[200];
    snprintf(b, sizeof b, "SUR extended N=%d m=%d k=%d mode=%d nan=%d details=%d forecasts=%d pcaY=%d/%d/%.2f pcaX=%d/%d/%.2f", N, m, k, mode, chk, det, nf, hasPy, py.ExactCount, py.CutoffRate, hasPx, px.ExactCount, px.CutoffRate);
    return b;
  }
  void construct() override {
    o.make(N, m, k, mode > 0, chk, det, nf, mode == 2 ? 2 : 0, pvar, hasPy ? &py : nullptr, hasPx ? &px : nullptr);
  }
  std::vector<size_t> sizes() override { return {(size_t)o->StorageSize, (size_t)o->WorkSize, (size_t)(mode == 2 ? m * k * m * k : 0)}; }
  void calc(int v, Ctx &c) override {
    auto data = d[v]->m();
    Rm = Matrix<Tv>(c.b[2], m * k, m * k);
    auto xm = xf->m();
    o->Calculate(data, m, c.b[0], c.b[1], mode ? &Rm : nullptr, mode ? 0.2 : 0, nf ? &xm : nullptr);
  }
  void collect(Out &r) override {
    out_sur(r, o->Model, det);
    r.add("Y", o->Y); r.add("X", o->X);
    if (nf) {
      r.add("means", o->Projections.Means);
      if (pvar) r.add("vars", o->Projections.Variances);
    }
  }
  void destroy() override { o.kill(); }
  void inputs(const std::function<void(const void *, size_t, const char *)> &f) override {
    for (auto &x : d) in(f, x, "SUR data");
    in(f, xf, "SUR forecast data");
  }
};
OP(OpSurExt, 2);

struct OpSurSim : OpT<OpSurSim> {
  int N, m, k, mode, fix, iters, seed, maxinv;
  double ratio, maxcn;
  bool box;
  std::vector<double> lam;
  std::vector<ScoringType> met;
  PA d[3];
  Own<SurSimulation> o;
  Matrix<Tv> Rm;
  bool cancel = false;
  void gen(Rng &g) {
    lapack = seeded = sim = true;
    N = 12 + g.u(20); m = 1 + g.u(2); k = 1 + g.u(3); mode = g.u(4) == 0 ? 2 : 0; iters = 2 + g.u(5);
    seed = 1 + g.u(1000); fix = g.u(3) == 0 ? (int)(N * 0.7) : 0; ratio = 0.5 + 0.3 * g.real();
    maxcn = g.u(4) == 0 ? 20 + 100 * g.real() : INFINITY;
    maxinv = g.u(3) == 0 ? (int)g.u(iters) : INT32_MAX;
    met = sur_metrics(g);
    box = g.u(4) == 0;
    for (int i = 0; i < 3; i++) d[i] = regdata(g, N, m, k);
    if (box) {
      for (int i = 0; i < m; i++) lam.push_back(g.u(2) ? 0.5 : 1);
    }
    break_data(g, *d[2], g.u(3), 0);
  }
  std::string describe() const override {
    char b[200];
    snprintf(b, sizeof b, "SUR simulation N=%d m=%d k=%d mode=%d train=%d/%.2f iterations=%d seed=%d maxcn=%g maxinvalid=%d metrics=%zu", N, m, k, mode, fix, ratio, iters, seed, maxcn, maxinv, met.size());
    return b;
  }
  void construct() override { o.make(N, m, k, ratio, fix, met, mode > 0, mode ? 2 : 0, nullptr, nullptr); }
  std::vector<size_t> sizes() override { return {(size_t)o->StorageSize, (size_t)o->WorkSize, (size_t)(mode == 2 ? m * k * m * k : 0)}; }
  void calc(int v, Ctx &c) override {
    auto data = d[v]->m();
    Rm = Matrix<Tv>(c.b[2], m * k, m * k);
    cancel = false;
    o->Calculate(data, m, c.b[0], c.b[1], mode ? &Rm : nullptr, cancel, iters, seed, mode ? 0.3 : 0, maxcn, maxinv, box ? &lam : nullptr);
  }
  void collect(Out &r) override {
    r.add("results", o->Results);
    r.add("valid", o->ValidIters);
    r.add("counts", o->ValidCounts);
    for (auto &e : o->Errors) r.add("err:" + e.first, e.second);
  }
  void destroy() override { o.kill(); }
  void inputs(const std::function<void(const void *, size_t, const char *)> &f) override {
    for (auto &x : d) in(f, x, "SUR data");
  }
};
OP(OpSurSim, 2);

// ------------------------------------------------------------------ VARMA
static void gen_sizes(Rng &g, int obs, int m, int k, int &p, int &dd, int &q, int &P, int &D, int &Q, int &s) {
  P = D = Q = s = 0;
  p = g.u(3); dd = g.u(3) == 0; q = g.u(3) == 0;
  if (g.u(4) == 0) { s = 2 + g.u(3); P = g.u(2); D = g.u(4) == 0; Q = q == 0 && g.u(4) == 0; }
  if (p + q + P + Q == 0) p = 1;
  if (P + D + Q == 0) s = 0;
}
static LimitedMemoryBfgsbOptions bfgs_opts(Rng &g) {
  LimitedMemoryBfgsbOptions o;
  o.IterationMax = 4 + g.u(20);
  return o;
}
static void out_varma(Out &o, const Varma &m, bool det) {
  o.add("task", m.Result.gamma.Data && m.Result.Optim.Task ? m.Result.Optim.Task : 0);
  o.add("gamma", m.Result.gamma);
  o.add("coef", m.Result.coef);
  o.add("resid", m.Result.resid);
  o.add("sigma2", m.Result.sigma2);
  o.add("gammavar", m.Result.gammavar);
  o.add("cn", m.Result.cn);
  o.add("LL", m.Result.LogLikelihood);
  o.add("aic", m.Result.Aic);
  o.add("sic", m.Result.Sic);
  if (det) {
    o.add("std", m.Result.coefstd); o.add("t", m.Result.coeft); o.add("prob", m.Result.coefprob);
  }
}
// residuals, their variance, the restricted coefficients and the likelihood belong to the reported parameters
static std::string varma_consistent(Varma &m, bool det) {
  auto &r = m.Result;
  int g = r.y.RowsCount, n = r.y.ColsCount, f = r.coef.ColsCount;
  char b[400];
  auto off = [](double a, double c) { return !(std::fabs(a - c) <= 1e-7 * (1 + std::fabs(a) + std::fabs(c))) && !(std::isnan(a) && std::isnan(c)); };
  for (int t = 0; t < n; t++)
    for (int e = 0; e < g; e++) {
      double s = r.y.Get0(e, t);
      for (int j = 0; j < f; j++) s -= r.coef.Get0(e, j) * r.Xt.Get0(t, j);
      if (off(s, r.resid.Get0(e, t))) {
        snprintf(b, sizeof b, "residual %d,%d is %.17g but the coefficients give %.17g", e, t, r.resid.Get0(e, t), s);
        return b;
      }
    }
  int row = m.Sizes.MaStart;
  for (int c = 0; c < m.Sizes.MaLength; c++, row += g) {
    int l = m.Sizes.MaLags.at(c);
    for (int t = l; t < n; t++)
      for (int e = 0; e < g; e++)
        if (off(r.Xt.Get0(t, row + e), r.resid.Get0(e, t - l))) {
          snprintf(b, sizeof b, "moving-average regressor %d at %d is not the lagged residual", row + e, t);
          return b;
        }
  }
  std::vector<double> S(g * g);
  for (int i = 0; i < g; i++)
    for (int j = 0; j < g; j++) {
      double s = 0;
      for (int t = 0; t < n; t++) s += r.resid.Get0(i, t) * r.resid.Get0(j, t);
      S[i + g * j] = s / n;
      if (off(s / n, r.sigma2.Get0(i, j))) {
        snprintf(b, sizeof b, "residual variance %d,%d is %.17g but the residuals give %.17g", i, j, r.sigma2.Get0(i, j), s / n);
        return b;
      }
    }
  if (det && (g == 1 || S[0] * S[3] - S[1] * S[2] > 1e-4 * S[0] * S[3])) {
    double d = g == 1 ? S[0] : S[0] * S[3] - S[1] * S[2];
    // the objective may divide by n less some of the parameters, and the constant may count the excluded observations
    double T = m.Sizes.T, ll = 0;
    bool any = false;
    for (double obs : {(double)n, T})
      for (double den = n; den > n - g * f - 1 && den > 0; den--) {
        ll = -0.5 * (obs * g * (std::log(2 * M_PI) + 1) + n * (std::log(d) + g * std::log(n / den)));
        any |= !off(ll, r.LogLikelihood);
      }
    if (!any) {
      snprintf(b, sizeof b, "log-likelihood is %.17g but the residuals give %.17g (n %d T %d det %.17g objective %.17g n log det %.17g)", r.LogLikelihood, ll, n, m.Sizes.T, d, r.Optim.FunctionValue, n * std::log(d));
      return b;
    }
  }
  return "";
}
struct OpVarma : OpT<OpVarma> {
  int T, m, k, h, p, D_, q, P, DS, Q, s, se;
  bool det, cv, fvar, cunc, restr;
  LimitedMemoryBfgsbOptions oo;
  PA y[3], x[3]; // m x T, k x (T + h)
  Own<VarmaSizes> sz;
  Own<Varma> o;
  Own<VarmaForecast> f;
  Own<VarmaRestriction> r;
  void gen(Rng &g) {
    lapack = true; omp = 1;
    T = 22 + g.u(20); m = 1 + g.u(2); k = g.u(3); h = g.u(4); se = g.u(3) == 0 ? (int)g.u(4) : 0;
    gen_sizes(g, T, m, k, p, D_, q, P, DS, Q, s);
    det = g.u(2); cv = g.u(4) != 0; fvar = cv && g.u(2); cunc = false; restr = g.u(2);
    optim = q + Q > 0;
    oo = bfgs_opts(g);
    for (int i = 0; i < 3; i++) {
      auto a = vardata(g, T + h, m, k);
      y[i] = std::make_shared<Arr>(m, T);
      x[i] = std::make_shared<Arr>(std::max(1, k), T + h);
      for (int t = 0; t < T; t++)
        for (int e = 0; e < m; e++) (*y[i])(e, t) = (*a)(t, e);
      for (int t = 0; t < T + h; t++)
        for (int e = 0; e < k; e++) (*x[i])(e, t) = (*a)(t, m + e);
    }
    if (g.u(2) || k < 2) (*y[2])(0, g.u(T)) = NAN;
    else for (int t = 0; t < T + h; t++) (*x[2])(1, t) = (*x[2])(0, t);
  }
  std::string describe() const override {
    char b[200];
    snprintf(b, sizeof b, "VARMA T=%d m=%d k=%d (%d,%d,%d)(%d,%d,%d)_%d horizon=%d end=%d details=%d var=%d fvar=%d restricted=%d", T, m, k, p, D_, q, P, DS, Q, s, h, se, det, cv, fvar, restr);
    return b;
  }
  void construct() override {
    sz.make(T, m, k, p, D_, q, P, DS, Q, s);
    if (restr) r.make(*sz, VarmaRestrictionType::kMaFinal);
    o.make(*sz, restr && r->IsRestricted, det, cv, &oo);
    if (h) f.make(*sz, h, fvar, cunc);
  }
  std::vector<size_t> sizes() override {
    return {(size_t)o->Result.StorageSize, (size_t)o->Result.WorkSize, (size_t)(h ? f->StorageSize : 0), (size_t)(h ? f->WorkSize : 0), (size_t)(restr ? r->StorageSize : 0)};
  }
  void calc(int v, Ctx &c) override {
    auto ym = y[v]->m();
    Matrix<Tv> xm(x[v]->d.data(), k, T + h), xe(x[v]->d.data(), k, T);
    bool rr = restr && r->IsRestricted;
    if (restr) r->Calculate(c.b[4]);
    o->EstimateMl(ym, k ? &xe : nullptr, c.b[1], c.b[0], rr ? &r->R : nullptr, rr && r->r.Data ? &r->r : nullptr, se, false, 2, INFINITY);
    if (h) f->Calculate(*o, k ? &xm : nullptr, &ym, c.b[2], c.b[3], h, false);
  }
  void collect(Out &r) override {
    out_varma(r, *o, det && cv);
    if (h) {
      // the part the forecast defines: from StartIndex on
      auto sub = [&](const char *n, const Matrix<Tv> &a) {
        std::vector<double> z;
        for (int j = f->StartIndex; j < a.ColsCount; j++)
          for (int i = 0; i < a.RowsCount; i++) z.push_back(a.Data[j * a.RowsCount + i]);
        r.v.push_back({n, z});
      };
      r.add("forecast", f->Forecast);
      if (fvar) sub("fvar", f->Variance);
    }
  }
  bool has_consistency() override { return optim; }
  std::string consistent() override { return varma_consistent(*o, det); }
  void destroy() override { f.kill(); o.kill(); r.kill(); sz.kill(); }
  void inputs(const std::function<void(const void *, size_t, const char *)> &fn) override {
    for (auto &a : y) in(fn, a, "VARMA data");
    for (auto &a : x) in(fn, a, "VARMA exogenous");
  }
};
OP(OpVarma, 3);

struct OpVarmaExt : OpT<OpVarmaExt> {
  int T, m, k, h, p, D_, q, P, DS, Q, s, rows, se;
  bool chk, det, cv, hasPx;
  VarmaRestrictionType rt;
  LimitedMemoryBfgsbOptions oo;
  PcaAnalysisOptions px;
  PA d[3];
  Own<VarmaSizes> sz;
  Own<VarmaExtended> o;
  void gen(Rng &g) {
    lapack = true; omp = 1;
    T = 24 + g.u(16); m = 1 + g.u(2); k = g.u(4); h = g.u(4); se = 0;
    gen_sizes(g, T, m, k, p, D_, q, P, DS, Q, s);
    chk = h > 0 || g.u(2); det = g.u(2); cv = g.u(4) != 0 || h > 0;
    rt = g.u(2) ? VarmaRestrictionType::kMaFinal : VarmaRestrictionType::kNone;
    optim = q + Q > 0;
    oo = bfgs_opts(g);
    hasPx = k > 2 && g.u(2);
    if (hasPx) gen_pca(g, px, k, 1);
    rows = T + h;
    for (int i = 0; i < 3; i++) {
      d[i] = vardata(g, rows, m, k);
      for (int t = T; t < rows; t++)
        for (int e = 0; e < m; e++) (*d[i])(t, e) = NAN;
    }
    if (g.u(2) || k < 2) (*d[2])(3 + g.u(T - 8), 0) = chk ? NAN : INFINITY;
    else for (int t = 0; t < rows; t++) (*d[2])(t, m + 1) = (*d[2])(t, m);
  }
  std::string describe() const override {
    char b[200];
    snprintf(b, sizeof b, "VARMA extended T=%d m=%d k=%d (%d,%d,%d)(%d,%d,%d)_%d horizon=%d nan=%d details=%d var=%d restr=%d pcaX=%d/%d/%.2f/%d", T, m, k, p, D_, q, P, DS, Q, s, h, chk, det, cv, (int)rt, hasPx, px.ExactCount, px.CutoffRate, px.CutoffCountMax);
    return b;
  }
  void construct() override {
    sz.make(T, m, k, p, D_, q, P, DS, Q, s);
    o.make(*sz, rt, chk, det, cv, h, nullptr, hasPx ? &px : nullptr, &oo);
  }
  std::vector<size_t> sizes() override { return {(size_t)o->StorageSize, (size_t)o->WorkSize}; }
  void calc(int v, Ctx &c) override {
    auto dm = d[v]->m();
    o->Calculate(dm, c.b[0], c.b[1], false, h, se);
  }
  void collect(Out &r) override {
    out_varma(r, o->Model, det && cv);
    r.add("Y", o->Y);
    if (k) r.add("X", o->X);
    if (h) {
      r.add("forecast", o->Forecasts.Forecast);
      std::vector<double> z;
      auto &a = o->Forecasts.Variance;
      for (int j = o->Forecasts.StartIndex; j < a.ColsCount; j++)
        for (int i = 0; i < a.RowsCount; i++) z.push_back(a.Data[j * a.RowsCount + i]);
      r.v.push_back({"fvar", z});
    }
  }
  bool has_consistency() override { return optim; }
  std::string consistent() override { return varma_consistent(o->Model, det); }
  void destroy() override { o.kill(); sz.kill(); }
  void inputs(const std::function<void(const void *, size_t, const char *)> &fn) override {
    for (auto &a : d) in(fn, a, "VARMA data");
  }
};
OP(OpVarmaExt, 2);

static std::vector<ScoringType> ts_metrics(Rng &g) {
  std::vector<ScoringType> all = {ScoringType::kDirection, ScoringType::kSign, ScoringType::kMae, ScoringType::kMape, ScoringType::kRmse, ScoringType::kRmspe, ScoringType::kCrps};
  std::vector<ScoringType> r;
  for (auto s : all)
    if (g.u(2)) r.push_back(s);
  if (r.empty()) r.push_back(all[g.u(all.size())]);
  return r;
}
struct OpVarmaSim : OpT<OpVarmaSim> {
  int T, m, k, p, D_, q, P, DS, Q, s, count, maxinv;
  bool ext, prev, restr, box;
  double maxcn;
  std::vector<double> lam;
  std::vector<Ti> hor;
  std::vector<ScoringType> met;
  LimitedMemoryBfgsbOptions oo;
  PA d[3], y[3], x[3];
  Own<VarmaSizes> sz;
  Own<VarmaSimulation> o;
  Own<VarmaRestriction> r;
  bool cancel = false;
  void gen(Rng &g) {
    lapack = sim = true; omp = 1;
    T = 20 + g.u(12); m = 1 + g.u(2); k = g.u(3); count = 1 + g.u(4); ext = g.u(3) == 0; prev = g.u(2);
    gen_sizes(g, T, m, k, p, D_, q, P, DS, Q, s);
    if (Q) Q = 0, P = std::max(P, 1);
    restr = !ext && g.u(2);
    optim = q + Q > 0;
    oo = bfgs_opts(g);
    oo.IterationMax = 3 + g.u(6);
    box = g.u(4) == 0;
    if (box) for (int i = 0; i < m; i++) lam.push_back(g.u(2) ? 0.5 : 0.0);
    maxcn = g.u(4) == 0 ? 1000 : 1e12;
    maxinv = g.u(3) == 0 ? (int)g.u(count + 1) : INT32_MAX;
    int hm = 1 + g.u(3);
    for (int i = 1; i <= hm; i++) if (i == 1 || g.u(2)) hor.push_back(i);
    met = ts_metrics(g);
    for (int i = 0; i < 3; i++) {
      d[i] = vardata(g, T, m, k);
      if (i == 2) break_data(g, *d[2], k > 1 ? 2 : 0, k > 1 ? m + 1 : 0);
      y[i] = std::make_shared<Arr>(m, T);
      x[i] = std::make_shared<Arr>(std::max(1, k), T);
      for (int t = 0; t < T; t++) {
        for (int e = 0; e < m; e++) (*y[i])(e, t) = (*d[i])(t, e);
        for (int e = 0; e < k; e++) (*x[i])(e, t) = (*d[i])(t, m + e);
      }
    }
  }
  std::string describe() const override {
    char b[220];
    snprintf(b, sizeof b, "VARMA simulation T=%d m=%d k=%d (%d,%d,%d)(%d,%d,%d)_%d count=%d horizons=%zu max %d extended=%d previous=%d restricted=%d boxcox=%d maxcn=%g maxinvalid=%d", T, m, k, p, D_, q, P, DS, Q, s, count, hor.size(), hor.back(), ext, prev, restr, box, maxcn, maxinv);
    return b;
  }
  void construct() override {
    sz.make(T, m, k, p, D_, q, P, DS, Q, s);
    if (restr) r.make(*sz, VarmaRestrictionType::kMaFinal);
    o.make(*sz, count, hor, met, &oo, ext, VarmaRestrictionType::kMaFinal, true, nullptr, nullptr);
    o->KeepDetails = true;
  }
  std::vector<size_t> sizes() override { return {(size_t)o->StorageSize, (size_t)o->WorkSize, (size_t)(restr ? r->StorageSize : 0)}; }
  void calc(int v, Ctx &c) override {
    cancel = false;
    if (ext) {
      auto dm = d[v]->m();
      o->CalculateE(c.b[0], c.b[1], dm, maxcn, 2, false, prev, box ? &lam : nullptr);
    } else {
      auto ym = y[v]->m();
      Matrix<Tv> xm(x[v]->d.data(), k, T);
      bool rr = restr && r->IsRestricted;
      if (restr) r->Calculate(c.b[2]);
      o->Calculate(c.b[0], c.b[1], ym, cancel, k ? &xm : nullptr, rr ? &r->R : nullptr, rr && r->r.Data ? &r->r : nullptr, prev, maxcn, 2, false, maxinv, box ? &lam : nullptr);
    }
  }
  void collect(Out &r) override {
    r.add("results", o->ResultAggs);
    r.add("valid", o->ValidCounts);
    for (auto &e : o->Errors) r.add("err:" + e.first, e.second);
    for (auto &t : o->Details) {
      r.add("detail", std::get<4>(t)); r.add("detail", std::get<5>(t)); r.add("detail", std::get<6>(t));
      r.add("detail", std::get<7>(t)); r.add("detail", std::get<8>(t));
    }
  }
  void destroy() override { o.kill(); r.kill(); sz.kill(); }
  void inputs(const std::function<void(const void *, size_t, const char *)> &fn) override {
    for (auto &a : d) in(fn, a, "VARMA data");
    for (auto &a : y) in(fn, a, "VARMA data");
    for (auto &a : x) in(fn, a, "VARMA exogenous");
  }
};
OP(OpVarmaSim, 2);

struct OpArma : OpT<OpArma> { // AR, MA and infinite MA polynomials of given coefficients
  int T, m, k, p, D_, q, P, DS, Q, s, inf;
  PA pi[3];
  Own<VarmaSizes> sz;
  Own<VarmaArma> o;
  void gen(Rng &g) {
    lapack = true;
    T = 40; m = 1 + g.u(3); k = g.u(2); inf = g.u(6);
    gen_sizes(g, T, m, k, p, D_, q, P, DS, Q, s);
    VarmaSizes z(T, m, k, p, D_, q, P, DS, Q, s);
    for (int i = 0; i < 3; i++) {
      pi[i] = randn(g, m, z.NumParamsEq);
      for (auto &e : pi[i]->d) e *= 0.3;
    }
    (*pi[2])(0, 0) = NAN;
  }
  std::string describe() const override {
    char b[200];
    snprintf(b, sizeof b, "VARMA polynomials m=%d k=%d (%d,%d,%d)(%d,%d,%d)_%d inf=%d", m, k, p, D_, q, P, DS, Q, s, inf);
    return b;
  }
  void construct() override {
    sz.make(T, m, k, p, D_, q, P, DS, Q, s);
    o.make(*sz, inf);
  }
  std::vector<size_t> sizes() override { return {(size_t)o->StorageSize, (size_t)o->WorkSize}; }
  void calc(int v, Ctx &c) override {
    auto a = pi[v]->m();
    o->Calculate(a, c.b[0], c.b[1]);
  }
  void collect(Out &r) override {
    for (auto *a : o->Ar.Coefficients) r.add("ar", *a);
    for (auto *a : o->Ma.Coefficients) r.add("ma", *a);
    if (inf > 0) for (auto *a : o->MaInf.Coefficients) r.add("mainf", *a);
  }
  void destroy() override { o.kill(); sz.kill(); }
  void inputs(const std::function<void(const void *, size_t, const char *)> &fn) override {
    for (auto &a : pi) in(fn, a, "VARMA coefficients");
  }
};
OP(OpArma, 1);

// ------------------------------------------------------------------ discrete choice
// columns [Y | W? | X]
static PA dcdata(Rng &g, int N, int k, int nch, bool weight) {
  int o = weight ? 2 : 1;
  auto a = std::make_shared<Arr>(N, o + k);
  for (int i = 0; i < N; i++) {
    double s = g.normal();
    for (int j = 0; j < k; j++) {
      double v = j == 0 ? 1.0 : g.normal();
      (*a)(i, o + j) = v;
      if (j) s += 0.7 * v;
    }
    int c = 0;
    for (int q = 1; q < nch; q++)
      if (s > (q - nch / 2.0) * 0.9) c = q;
    (*a)(i, 0) = c;
    if (weight) (*a)(i, 1) = 0.5 + g.real();
  }
  for (int q = 0; q < nch; q++) (*a)(q, 0) = (*a)(nch + q, 0) = q; // every choice occurs
  return a;
}
static std::vector<Arr> gen_costs(Rng &g, int nch, int n) {
  std::vector<Arr> r;
  for (int i = 0; i < n; i++) {
    int t = 2 + g.u(2);
    Arr a(t, nch + 1);
    for (int j = 0; j < t; j++) {
      a(j, 0) = j == t - 1 ? 1.0 : (j + 1.0) / t;
      for (int c = 0; c < nch; c++) a(j, 1 + c) = g.u(4);
    }
    r.push_back(a);
  }
  return r;
}
struct OpDc : OpT<OpDc> {
  int N, k, nch, nf;
  bool ordered, probit, weight, det, ols;
  PA d[3], xf;
  Own<DiscreteChoiceBase> o;
  Matrix<Tv> pr;
  void gen(Rng &g) {
    lapack = optim = true;
    N = 16 + g.u(30); k = 1 + g.u(3); ordered = g.u(3) == 0; nch = ordered ? 3 + g.u(2) : 2; probit = g.u(2);
    weight = g.u(2); det = g.u(2); nf = 1 + g.u(3); ols = g.u(2);
    for (int i = 0; i < 3; i++) d[i] = dcdata(g, N, k, nch, weight);
    break_data(g, *d[2], k > 1 && g.u(2) ? 2 : 0, weight ? 2 : 1);
    xf = randn(g, nf, k);
  }
  std::string describe() const override {
    char b[160];
    snprintf(b, sizeof b, "discrete choice N=%d k=%d choices=%d %s weight=%d details=%d olsstart=%d", N, k, nch, probit ? "probit" : "logit", weight, det, ols);
    return b;
  }
  void construct() override {
    o.take(DiscreteChoiceBase::GetFromType(ordered ? DiscreteChoiceModelType::kOrdered : DiscreteChoiceModelType::kBinary, probit ? DiscreteChoiceDistType::kProbit : DiscreteChoiceDistType::kLogit, N, k, nch, det).release());
  }
  std::vector<size_t> sizes() override { return {(size_t)o->StorageSize, (size_t)o->WorkSize, (size_t)(nf * nch), (size_t)(nf + nch - 2)}; }
  void calc(int v, Ctx &c) override {
    double *p = d[v]->d.data();
    Matrix<Tv> y(p, N, 1), w(p + N, N, 1), x(p + (weight ? 2 : 1) * N, N, k);
    if (!ols) for (int i = 0; i < k + nch - 2; i++) c.b[0][i] = i < k ? 0 : i - k + 1.0; // the caller gives the starting values in the storage
    o->Calculate(y, x, weight ? &w : nullptr, c.b[0], c.b[1], nch, ols);
    pr = Matrix<Tv>(c.b[2], nf, nch);
    auto xm = xf->m();
    o->GetProbabilities(xm, pr, c.b[3]);
  }
  void collect(Out &r) override {
    r.add("beta", o->Beta); r.add("var", o->BetaVar); r.add("logL", o->LogL); r.add("aic", o->Aic); r.add("sic", o->Sic);
    r.add("cn", o->condition_number); r.add("counts", o->Counts);
    if (det) { r.add("std", o->BetaStd); r.add("z", o->BetaZ); r.add("prob", o->BetaProb); }
    r.add("probs", pr);
  }
  void destroy() override { o.kill(); }
  void inputs(const std::function<void(const void *, size_t, const char *)> &f) override {
    for (auto &x : d) in(f, x, "choice data");
    in(f, xf, "choice forecast data");
  }
};
OP(OpDc, 2);

static void gen_roc(Rng &g, RocOptions &o) {
  if (g.u(4) == 0) { o.LowerThreshold = 0.1 + 0.2 * g.real(); o.UpperThreshold = 0.6 + 0.3 * g.real(); }
  if (g.u(4) == 0) o.Epsilon = 0.05;
  if (g.u(4) == 0) o.Pessimistic = true;
  if (g.u(4) == 0) o.NormalizePoints = false;
}
struct OpDcExt : OpT<OpDcExt> {
  int N, k, nch, nf;
  bool ordered, probit, weight, det, chk, hasP, wev, ols;
  PcaAnalysisOptions pc;
  std::vector<Arr> costs;
  RocOptions roc;
  PA d[3], xf;
  Own<std::vector<Matrix<Tv>>> cm;
  Own<DiscreteChoiceExtended> o;
  void gen(Rng &g) {
    lapack = optim = true;
    N = 18 + g.u(20); k = 1 + g.u(4); ordered = g.u(4) == 0; nch = ordered ? 3 : 2; probit = g.u(2);
    weight = g.u(2); det = !ordered && g.u(2); nf = g.u(3); chk = g.u(2); wev = g.u(2); ols = g.u(2);
    hasP = k > 2 && g.u(3) == 0;
    if (hasP) { gen_pca(g, pc, k, 1); if (pc.ExactCount >= k - 1) pc.ExactCount = 1; }
    if (det && g.u(2)) costs = gen_costs(g, nch, 1 + g.u(2));
    gen_roc(g, roc);
    for (int i = 0; i < 3; i++) {
      d[i] = dcdata(g, N, k, nch, weight);
      if (chk)
        for (int j = (int)g.u(4); j > 0; j--) (*d[i])(2 * nch + g.u(N - 2 * nch), g.u(k + 1)) = NAN;
    }
    break_data(g, *d[2], k > 1 ? 2 : 3, weight ? 2 : 1);
    xf = randn(g, std::max(1, nf), k);
  }
  std::string describe() const override {
    char b[200];
    snprintf(b, sizeof b, "choice extended N=%d k=%d choices=%d %s weight=%d details=%d nan=%d forecasts=%d costs=%zu pca=%d/%d/%.2f", N, k, nch, probit ? "probit" : "logit", weight, det, chk, nf, costs.size(), hasP, pc.ExactCount, pc.CutoffRate);
    return b;
  }
  void construct() override {
    cm.make();
    for (auto &a : costs) cm->push_back(a.m());
    o.make(ordered ? DiscreteChoiceModelType::kOrdered : DiscreteChoiceModelType::kBinary, probit ? DiscreteChoiceDistType::kProbit : DiscreteChoiceDistType::kLogit, N, k + (weight ? 2 : 1), weight, chk, nch, det, nf, hasP ? &pc : nullptr, costs.size() ? &*cm : nullptr, wev);
  }
  std::vector<size_t> sizes() override { return {(size_t)o->StorageSize, (size_t)o->WorkSize}; }
  void calc(int v, Ctx &c) override {
    auto dm = d[v]->m(), xm = xf->m();
    o->Calculate(dm, c.b[0], c.b[1], true, nf ? &xm : nullptr, roc);
  }
  void collect(Out &r) override {
    auto &m = *o->Model;
    r.add("beta", m.Beta); r.add("logL", m.LogL); r.add("aic", m.Aic); r.add("cn", m.condition_number);
    r.add("var", m.BetaVar);
    if (nf) r.add("pred", o->PredProbs);
    if (det) {
      r.add("proj", o->Projections); r.add("auc", o->Auc); r.add("brier", o->BrierScore);
      if (costs.size()) r.add("cost", o->CostRatioAvg);
    }
  }
  void destroy() override { o.kill(); cm.kill(); }
  void inputs(const std::function<void(const void *, size_t, const char *)> &f) override {
    for (auto &x : d) in(f, x, "choice data");
    in(f, xf, "choice forecast data");
    for (auto &a : costs) f(a.d.data(), a.d.size() * sizeof(double), "cost matrix");
  }
};
OP(OpDcExt, 2);

struct OpDcSim : OpT<OpDcSim> {
  int N, k, fix, sims, seed, maxinv;
  bool probit, weight, wev, brier, auc, freq, hasP;
  double ratio;
  PcaAnalysisOptions pc;
  std::vector<Arr> costs;
  RocOptions roc;
  PA d[3];
  Own<std::vector<Matrix<Tv>>> cm;
  Own<DiscreteChoiceSimBase> o;
  Own<std::map<std::string, Ti>> errs;
  bool cancel = false;
  void gen(Rng &g) {
    lapack = optim = sim = seeded = true;
    N = 18 + g.u(20); k = 1 + g.u(3); probit = g.u(2); weight = g.u(2); wev = g.u(2); brier = g.u(2); auc = g.u(3) != 0; freq = !auc || g.u(2);
    sims = 2 + g.u(4); seed = 1 + g.u(1000); fix = g.u(4) == 0 ? (int)(0.7 * N) : 0; ratio = 0.5 + 0.3 * g.real();
    maxinv = g.u(3) == 0 ? (int)g.u(sims) : INT32_MAX;
    hasP = false;
    if (g.u(2)) costs = gen_costs(g, 2, 1 + g.u(2));
    gen_roc(g, roc);
    for (int i = 0; i < 3; i++) d[i] = dcdata(g, N, k, 2, weight);
    break_data(g, *d[2], k > 1 ? 2 : 3, weight ? 2 : 1);
  }
  std::string describe() const override {
    char b[200];
    snprintf(b, sizeof b, "choice simulation N=%d k=%d %s weight=%d/%d train=%d/%.2f simulations=%d seed=%d costs=%zu auc=%d brier=%d freq=%d maxinvalid=%d", N, k, probit ? "probit" : "logit", weight, wev, fix, ratio, sims, seed, costs.size(), auc, brier, freq, maxinv);
    return b;
  }
  void construct() override {
    cm.make();
    errs.make();
    for (auto &a : costs) cm->push_back(a.m());
    o.take(DiscreteChoiceSimBase::GetFromType(weight, DiscreteChoiceModelType::kBinary, probit ? DiscreteChoiceDistType::kProbit : DiscreteChoiceDistType::kLogit, N, k + (weight ? 2 : 1), 2, ratio, fix, (Ti)costs.size(), brier, auc, freq, nullptr, wev).release());
    o->Seed = seed;
    o->SimulationMax = sims;
  }
  std::vector<size_t> sizes() override { return {(size_t)o->StorageSize, (size_t)o->WorkSize}; }
  std::vector<size_t> isizes() override { return {(size_t)o->WorkSizeI}; }
  void calc(int v, Ctx &c) override {
    auto dm = d[v]->m();
    cancel = false;
    errs->clear();
    o->Calculate(dm, costs.size() ? &*cm : nullptr, c.b[0], c.b[1], c.ib[0], cancel, roc, true, &*errs, maxinv);
  }
  void collect(Out &r) override {
    r.add("valid", o->ValidSimulationCount);
    if (costs.size()) r.add("costs", o->CostRatios);
    if (freq) r.add("freq", o->FrequencyTable);
    if (auc) r.add("auc", o->Auc);
    if (brier) r.add("brier", o->BrierScore);
    for (auto &e : *errs) r.add("err:" + e.first, e.second);
  }
  void destroy() override { o.kill(); cm.kill(); errs.kill(); }
  void inputs(const std::function<void(const void *, size_t, const char *)> &f) override {
    for (auto &x : d) in(f, x, "choice data");
    for (auto &a : costs) f(a.d.data(), a.d.size() * sizeof(double), "cost matrix");
  }
};
OP(OpDcSim, 2);

namespace ops {
std::vector<Entry> &catalogue() {
  static std::vector<Entry> c;
  return c;
}
std::unique_ptr<Op> draw(const std::function<bool(const Entry &)> &f) {
  auto c = catalogue();
  std::sort(c.begin(), c.end(), [](const Entry &a, const Entry &b) { return strcmp(a.name, b.name) < 0; });
  double tot = 0;
  for (auto &e : c)
    if (!f || f(e)) tot += e.weight;
  double x = sim::chreal() * tot;
  const Entry *last = nullptr;
  for (auto &e : c) {
    if (f && !f(e)) continue;
    last = &e;
    if ((x -= e.weight) < 0) break;
  }
  return last->gen();
}
std::unique_ptr<Op> draw_named(const char *name) {
  for (auto &e : catalogue())
    if (!strcmp(e.name, name)) return e.gen();
  abort();
}
} // namespace ops

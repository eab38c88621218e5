// Catalogue: decompositions, descriptive statistics, clustering, scores, distributions, optimisers,
// polynomials, splits, data sets and variables.
#include "ops.h"
using namespace ops;
#define IN_DATA(nm)                                                                                \
  void inputs(const std::function<void(const void *, size_t, const char *)> &f) override {         \
    for (auto &x : d) in(f, x, nm);                                                                \
  }
static void add_cols(Out &r, const char *n, const Matrix<Tv> &m) { r.add(n, m); }

struct OpPca : OpT<OpPca> {
  int N, k, nf;
  bool pcs, zero, center, scale;
  PA d[3], xf;
  Own<PcaAnalysis> o;
  void gen(Rng &g) {
    lapack = true;
    N = 4 + g.u(20); k = 2 + g.u(4); nf = g.u(4); pcs = g.u(4) != 0; zero = g.u(2); center = g.u(2); scale = g.u(2);
    for (int i = 0; i < 3; i++) d[i] = randn(g, N, k);
    break_data(g, *d[2], zero && nf ? 0 : g.u(2), 0);
    xf = randn(g, std::max(1, nf), k);
  }
  std::string describe() const override {
    char b[160];
    snprintf(b, sizeof b, "principal components N=%d k=%d forecasts=%d pcs=%d zerovar=%d center=%d scale=%d", N, k, nf, pcs, zero, center, scale);
    return b;
  }
  void construct() override { o.make(N, k, nf, pcs, zero, center, scale); }
  std::vector<size_t> sizes() override { return {(size_t)o->StorageSize, (size_t)o->WorkSize}; }
  void calc(int v, Ctx &c) override {
    auto m = d[v]->m(), x = xf->m();
    o->Calculate(m, c.b[1], c.b[0], nf ? &x : nullptr);
  }
  void collect(Out &r) override {
    r.add("dir", o->Directions); r.add("stds", o->Stds); r.add("ratio", o->Stds2Ratios);
    if (pcs) r.add("pcs", o->PCs);
    if (nf) r.add("forecasts", o->Forecasts);
    r.addv("removed", o->DataS.RemovedZeroVar);
  }
  void destroy() override { o.kill(); }
  IN_DATA("PCA data")
};
OP(OpPca, 2);

struct OpSvd : OpT<OpSvd> {
  int N, k;
  char u, v;
  PA d[3];
  Own<MatrixSvd<Tv>> o;
  void gen(Rng &g) {
    lapack = true;
    N = 1 + g.u(7); k = 1 + g.u(7);
    const char js[] = {'A', 'S', 'N'};
    u = js[g.u(3)]; v = js[g.u(3)];
    for (int i = 0; i < 3; i++) d[i] = randn(g, N, k);
    break_data(g, *d[2], 0, 0);
  }
  std::string describe() const override {
    char b[100];
    snprintf(b, sizeof b, "SVD %dx%d %c%c", N, k, u, v);
    return b;
  }
  void construct() override { o.make(N, k, u, v); }
  std::vector<size_t> sizes() override { return {(size_t)o->StorageSize, (size_t)o->WorkSize}; }
  void calc(int q, Ctx &c) override {
    auto m = d[q]->m();
    o->Calculate(m, c.b[0], c.b[1]);
  }
  void collect(Out &r) override {
    if (u != 'N') r.add("U", o->U);
    r.add("S", o->S);
    if (v != 'N') r.add("VT", o->VT);
  }
  void destroy() override { o.kill(); }
  IN_DATA("SVD data")
};
OP(OpSvd, 1);

template <bool n, CorrelationType t, CorrelationMethod m> static CorrelationBase *mkc(int r, int c) { return new Correlation<n, t, m>(r, c, true); }
struct OpCorr : OpT<OpCorr> {
  int N, k;
  bool nan, cov, spear, dof, low;
  PA d[3];
  Own<CorrelationBase> o;
  void gen(Rng &g) {
    N = 3 + g.u(15); k = 1 + g.u(5); nan = g.u(2); cov = g.u(2); spear = !nan && g.u(2); dof = g.u(2); low = g.u(2);
    for (int i = 0; i < 3; i++) {
      d[i] = randn(g, N, k);
      if (nan) for (int j = 0; j < (int)g.u(4); j++) (*d[i])(g.u(N), g.u(k)) = NAN;
    }
    break_data(g, *d[2], g.u(2), 0);
  }
  std::string describe() const override {
    char b[120];
    snprintf(b, sizeof b, "%s N=%d k=%d nan=%d %s dof=%d lower=%d", cov ? "covariance" : "correlation", N, k, nan, spear ? "spearman" : "pearson", dof, low);
    return b;
  }
  void construct() override {
    const auto C = CorrelationType::kCorrelation, V = CorrelationType::kCovariance;
    const auto P = CorrelationMethod::kPearson, S = CorrelationMethod::kSpearman;
    o.take(nan ? (cov ? mkc<true, V, P>(N, k) : mkc<true, C, P>(N, k))
               : spear ? (cov ? mkc<false, V, S>(N, k) : mkc<false, C, S>(N, k)) : (cov ? mkc<false, V, P>(N, k) : mkc<false, C, P>(N, k)));
  }
  std::vector<size_t> sizes() override { return {(size_t)o->StorageSize, (size_t)o->WorkSize}; }
  void calc(int v, Ctx &c) override {
    auto m = d[v]->m();
    o->Calculate(m, c.b[1], c.b[0], dof, low);
  }
  void collect(Out &r) override {
    if (low) r.add("res", o->Result);
    else {
      std::vector<double> z;
      for (int j = 0; j < k; j++) for (int i = 0; i <= j; i++) z.push_back(o->Result.Get0(i, j));
      r.v.push_back({"upper", z});
    }
    if (!nan) { r.add("means", o->Means); }
  }
  void destroy() override { o.kill(); }
  IN_DATA("correlation data")
};
OP(OpCorr, 2);

struct OpDist : OpT<OpDist> {
  int N, k;
  bool nan;
  DistanceMethod dm;
  CorrelationMethod cm;
  PA d[3];
  Own<DistanceBase> o;
  void gen(Rng &g) {
    N = 3 + g.u(12); k = 2 + g.u(5); nan = g.u(2);
    dm = (DistanceMethod)g.u(5);
    cm = g.u(2) ? CorrelationMethod::kPearson : CorrelationMethod::kSpearman;
    for (int i = 0; i < 3; i++) {
      d[i] = randn(g, N, k);
      if (nan) for (int j = 0; j < (int)g.u(4); j++) (*d[i])(g.u(N), g.u(k)) = NAN;
    }
    break_data(g, *d[2], g.u(2), 0);
  }
  std::string describe() const override {
    char b[120];
    snprintf(b, sizeof b, "distance N=%d k=%d nan=%d %s", N, k, nan, ToString(dm));
    return b;
  }
  void construct() override { o.take(DistanceBase::GetFromType(nan, dm, cm, N, k).release()); }
  std::vector<size_t> sizes() override { return {(size_t)o->StorageSize, (size_t)o->WorkSize}; }
  void calc(int v, Ctx &c) override {
    auto m = d[v]->m();
    o->Calculate(m, c.b[0], c.b[1]);
  }
  void collect(Out &r) override { r.add("dist", o->Result.Data, o->Result.length_array()); }
  void destroy() override { // the base class has no virtual destructor and the derived class no own state
    o.kill();
  }
  IN_DATA("distance data")
};
OP(OpDist, 1);

struct OpHcl : OpT<OpHcl> {
  int n, groups;
  HClusterLinkage l;
  std::vector<double> d[3];
  Own<HClusterBase> o;
  std::vector<double> copy;
  Own<std::vector<std::unique_ptr<std::vector<Ti>>>> gr;
  Own<std::vector<Ti>> order;
  Matrix<Ti> mm;
  Matrix<Tv> hh;
  void gen(Rng &g) {
    n = 2 + g.u(7); groups = 1 + g.u(n);
    const HClusterLinkage ls[] = {HClusterLinkage::kSingle, HClusterLinkage::kComplete, HClusterLinkage::kAverageU, HClusterLinkage::kAverageW, HClusterLinkage::kWard};
    l = ls[g.u(5)];
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < n * (n - 1) / 2; j++) d[i].push_back(g.u(3) ? g.real() * 5 : (double)(1 + g.u(3)));
    d[2][g.u(d[2].size())] = INFINITY;
  }
  std::string describe() const override {
    char b[120];
    snprintf(b, sizeof b, "hierarchical clustering n=%d groups=%d %s", n, groups, ToString(l));
    return b;
  }
  void construct() override { o.take(HClusterBase::GetFromType(l, n).release()); gr.make(); order.make(); }
  std::vector<size_t> sizes() override { return {(size_t)(n * (n - 1) / 2), (size_t)(n - 1)}; }
  std::vector<size_t> isizes() override { return {(size_t)(2 * (n - 1))}; }
  void calc(int v, Ctx &c) override {
    // a fresh object per calculation: the class builds its leaf nodes in the constructor
    memcpy(c.b[0], d[v].data(), d[v].size() * sizeof(double));
    o.kill();
    gr->clear();
    o.take(HClusterBase::GetFromType(l, n).release());
    MatrixSym<false> m(c.b[0], n);
    o->Calculate(m);
    for (int i = 0; i < groups; i++) gr->push_back(std::make_unique<std::vector<Ti>>());
    o->Group(*gr);
    mm = Matrix<Ti>(c.ib[0], n - 1, 2);
    hh = Matrix<Tv>(c.b[1], n - 1, 1);
    order->assign(n, 0);
    o->MergeR(mm, hh, *order);
  }
  void collect(Out &r) override {
    for (auto &g : *gr) r.addv("group", *g);
    r.addi("merge", mm);
    r.add("heights", hh);
    r.addv("order", *order);
  }
  void destroy() override { o.kill(); gr.kill(); order.kill(); }
};
OP(OpHcl, 1);

struct OpGroup : OpT<OpGroup> {
  int N, k, groups;
  HClusterLinkage l;
  DistanceMethod dm;
  CorrelationMethod cm;
  double thr;
  PA d[3];
  Own<GroupDataBase> o;
  void gen(Rng &g) {
    N = 5 + g.u(12); k = 2 + g.u(5); groups = 1 + g.u(k);
    const HClusterLinkage ls[] = {HClusterLinkage::kSingle, HClusterLinkage::kComplete, HClusterLinkage::kAverageU, HClusterLinkage::kAverageW, HClusterLinkage::kWard};
    l = ls[g.u(5)];
    dm = (DistanceMethod)g.u(5);
    cm = g.u(2) ? CorrelationMethod::kPearson : CorrelationMethod::kSpearman;
    thr = g.u(2) ? 0 : g.real() * 0.6;
    for (int i = 0; i < 3; i++) d[i] = randn(g, N, k);
    break_data(g, *d[2], g.u(2) ? 1 : 2, 0);
  }
  std::string describe() const override {
    char b[140];
    snprintf(b, sizeof b, "variable grouping N=%d k=%d groups=%d %s %s threshold=%.2f", N, k, groups, ToString(l), ToString(dm), thr);
    return b;
  }
  void construct() override { o.take(GroupDataBase::GetFromType(l, dm, cm, N, k).release()); }
  std::vector<size_t> sizes() override { return {(size_t)o->WorkSize}; }
  void calc(int v, Ctx &c) override {
    auto m = d[v]->m();
    o->Calculate(m, c.b[0], groups, thr);
  }
  void collect(Out &r) override {
    for (auto &g : o->Groups) r.addv("group", *g);
    r.addv("removed", std::vector<double>(o->Removed.begin(), o->Removed.end()));
    r.add("nan", o->NaNDistanceFound);
  }
  void destroy() override { o.kill(); }
  IN_DATA("grouping data")
};
OP(OpGroup, 1);

struct OpRoc : OpT<OpRoc> {
  int n;
  bool w, cost;
  RocOptions opt;
  Arr cm;
  PA d[3]; // y, score, weight, cost
  Own<RocBase> o;
  void gen(Rng &g) {
    n = 3 + g.u(20); w = g.u(2); cost = g.u(2);
    for (int i = 0; i < 3; i++) {
      d[i] = std::make_shared<Arr>(n, 4);
      for (int j = 0; j < n; j++) {
        (*d[i])(j, 0) = j < 2 ? j : g.u(2);
        (*d[i])(j, 1) = g.u(2) ? g.real() : g.u(5) / 4.0;
        (*d[i])(j, 2) = 0.2 + g.real();
        (*d[i])(j, 3) = 0.5 + g.real();
      }
    }
    for (int j = 0; j < n; j++) (*d[2])(j, 0) = 1; // one class only (the order of missing scores is not defined)
    if (g.u(3) == 0) { opt.LowerThreshold = 0.1 + 0.2 * g.real(); opt.UpperThreshold = 0.6 + 0.3 * g.real(); }
    if (g.u(3) == 0) opt.Epsilon = 0.05;
    opt.Pessimistic = g.u(3) == 0;
    opt.NormalizePoints = g.u(2);
    cm = Arr(2, 2);
    for (int i = 0; i < 4; i++) cm.d[i] = g.u(3);
    cm(0, 0) += 1;
  }
  std::string describe() const override {
    char b[120];
    snprintf(b, sizeof b, "ROC n=%d weights=%d costs=%d", n, w, cost);
    return b;
  }
  void construct() override {
    if (w) o.take(cost ? (RocBase *)new ROC<true, true>(n) : new ROC<true, false>(n));
    else o.take(cost ? (RocBase *)new ROC<false, true>(n) : new ROC<false, false>(n));
  }
  void calc(int v, Ctx &c) override {
    double *p = d[v]->d.data();
    Matrix<Tv> y(p, n, 1), s(p + n, n, 1), wt(p + 2 * n, n, 1);
    RocOptions q = opt;
    if (cost) { q.Costs = Matrix<Tv>(p + 3 * n, n, 1); q.CostMatrix = cm.m(); }
    o->Calculate(y, s, w ? &wt : nullptr, q);
  }
  void collect(Out &r) override {
    r.add("auc", o->Result);
    for (auto &p : o->Points) { r.add("x", std::get<0>(p)); r.add("y", std::get<1>(p)); }
  }
  void destroy() override { o.kill(); }
  IN_DATA("ROC data")
};
OP(OpRoc, 1);

struct OpFreqCost : OpT<OpFreqCost> {
  int n, nch, nc;
  bool w;
  std::vector<Arr> costs;
  PA d[3]; // y, w, probs
  Own<FrequencyCostBase> o;
  Own<std::vector<Matrix<Tv>>> cm;
  void gen(Rng &g) {
    n = 2 + g.u(15); nch = 2 + g.u(2); nc = 1 + g.u(3); w = g.u(2);
    for (int i = 0; i < nc; i++) {
      int t = 1 + g.u(3);
      Arr a(t, nch + 1);
      for (int j = 0; j < t; j++) {
        a(j, 0) = j == t - 1 ? 1.0 : (j + 1.0) / t;
        for (int c = 0; c < nch; c++) a(j, 1 + c) = 1 + g.u(4);
      }
      costs.push_back(a);
    }
    for (int i = 0; i < 3; i++) {
      d[i] = std::make_shared<Arr>(n, 2 + nch);
      for (int j = 0; j < n; j++) {
        (*d[i])(j, 0) = g.u(nch);
        (*d[i])(j, 1) = 0.2 + g.real();
        double s = 0;
        for (int c = 0; c < nch; c++) s += (*d[i])(j, 2 + c) = g.real();
        for (int c = 0; c < nch; c++) (*d[i])(j, 2 + c) /= s;
      }
    }
    (*d[2])(g.u(n), 2 + g.u(nch)) = NAN;
  }
  std::string describe() const override {
    char b[120];
    snprintf(b, sizeof b, "frequency cost n=%d choices=%d matrices=%d weights=%d", n, nch, nc, w);
    return b;
  }
  void construct() override {
    cm.make();
    for (auto &a : costs) cm->push_back(a.m());
    o.take(w ? (FrequencyCostBase *)new FrequencyCost<true>(nc) : new FrequencyCost<false>(nc));
  }
  std::vector<size_t> sizes() override { return {(size_t)o->StorageSize}; }
  void calc(int v, Ctx &c) override {
    double *p = d[v]->d.data();
    Matrix<Tv> y(p, n, 1), wt(p + n, n, 1), s(p + 2 * n, n, nch);
    o->Calculate(*cm, y, s, w ? &wt : nullptr, c.b[0]);
  }
  void collect(Out &r) override { r.add("sums", o->CostSums); r.add("counts", o->CostCounts); r.add("avg", o->AverageRatio); }
  void destroy() override { o.kill(); cm.kill(); }
  IN_DATA("score data")
};
OP(OpFreqCost, 1);

struct OpRank : OpT<OpRank> {
  int N, k;
  bool asc;
  PA d[3];
  Own<Rank> o;
  void gen(Rng &g) {
    N = 2 + g.u(12); k = 1 + g.u(4); asc = g.u(2);
    for (int i = 0; i < 3; i++) { d[i] = randn(g, N, k); if (g.u(2)) for (auto &x : d[i]->d) x = std::round(x * 2); }
    d[2]->d[g.u(d[2]->d.size())] = INFINITY;
  }
  void construct() override { o.make(N, k); }
  std::vector<size_t> sizes() override { return {(size_t)o->StorageSize, (size_t)o->WorkSize}; }
  void calc(int v, Ctx &c) override {
    auto m = d[v]->m();
    o->Calculate(m, c.b[1], c.b[0], asc);
  }
  void collect(Out &r) override { r.add("rank", o->Result); }
  void destroy() override { o.kill(); }
  IN_DATA("rank data")
};
OP(OpRank, 1);

struct OpLs : OpT<OpLs> { // ordinary and generalised least squares
  int N, m, k;
  bool gls, res, sig, inv;
  PA d[3], om;
  Own<Ols> a;
  Own<Gls> b;
  void gen(Rng &g) {
    lapack = true;
    N = 5 + g.u(15); m = 1 + g.u(2); k = 1 + g.u(3); gls = g.u(2); res = g.u(2); sig = g.u(2); inv = g.u(2);
    for (int i = 0; i < 3; i++) d[i] = regdata(g, N, m, k);
    break_data(g, *d[2], k > 1 && g.u(2) ? 2 : 0, k > 1 ? m + 1 : 0);
    om = std::make_shared<Arr>(N, N);
    std::vector<double> z(N);
    for (auto &x : z) x = 0.5 + g.real();
    for (int i = 0; i < N; i++) (*om)(i, i) = z[i];
  }
  std::string describe() const override {
    char q[120];
    snprintf(q, sizeof q, "%s N=%d m=%d k=%d resid=%d sigma=%d", gls ? "GLS" : "OLS", N, m, k, res, sig);
    return q;
  }
  void construct() override {
    if (gls) b.make(N, m, k, res, sig, inv);
    else a.make(N, m, k, res, sig);
  }
  std::vector<size_t> sizes() override {
    if (gls) return {(size_t)b->StorageSize, (size_t)b->WorkSize, (size_t)(N * N)};
    return {(size_t)a->StorageSize, (size_t)a->WorkSize};
  }
  void calc(int v, Ctx &c) override {
    Matrix<Tv> Y(d[v]->d.data(), N, m), X(d[v]->d.data() + N * m, N, k);
    if (gls) {
      memcpy(c.b[2], om->d.data(), N * N * sizeof(double)); // inverted in place by design
      Matrix<Tv> O(c.b[2], N, N);
      b->Calculate(Y, X, O, c.b[0], c.b[1]);
    } else a->Calculate(Y, X, c.b[0], c.b[1]);
  }
  void collect(Out &r) override {
    r.add("beta", gls ? b->Beta : a->Beta);
    if (res) r.add("resid", gls ? b->Resid : a->Resid);
    if (sig) r.add("sigma", gls ? b->Sigma : a->Sigma);
  }
  void destroy() override { a.kill(); b.kill(); }
  IN_DATA("least squares data")
};
OP(OpLs, 2);

struct OpDesc : OpT<OpDesc> {
  int n, what, sc;
  bool smp, mult;
  PA d[3], co;
  Out res;
  void gen(Rng &g) {
    n = 8 + g.u(20); what = g.u(4); smp = g.u(2); sc = 2 + g.u(3); mult = g.u(2);
    for (int i = 0; i < 3; i++) d[i] = randpos(g, n, 1);
    d[2]->d[g.u(n)] = NAN;
    co = randn(g, sc % 2 ? sc : sc + 1, 1);
    for (auto &x : co->d) x *= 0.3;
  }
  std::string describe() const override {
    char q[100];
    snprintf(q, sizeof q, "descriptive statistics n=%d kind=%d", n, what);
    return q;
  }
  std::vector<size_t> sizes() override { return {(size_t)n, (size_t)n, (size_t)n, (size_t)sc}; }
  double v_[20];
  int nv = 0;
  Matrix<Tv> m_[4];
  int nm = 0;
  void calc(int v, Ctx &c) override {
    auto m = d[v]->m();
    Descriptive s(&m);
    nv = nm = 0;
    auto cm = co->m();
    switch (what) {
    case 0: {
      v_[nv++] = s.Minimum(); v_[nv++] = s.Maximum(); v_[nv++] = s.Sum();
      auto t = s.MeanVariance(smp);
      v_[nv++] = std::get<0>(t); v_[nv++] = std::get<1>(t);
      auto f = s.MeanVarianceKurtosisSkewness(smp);
      v_[nv++] = std::get<0>(f); v_[nv++] = std::get<1>(f); v_[nv++] = std::get<2>(f); v_[nv++] = std::get<3>(f);
      v_[nv++] = s.SumOfSquares(smp);
      v_[nv++] = s.QuantileSorted(0.3);
      double z[2];
      s.RegressionTrend(z);
      v_[nv++] = z[0]; v_[nv++] = z[1];
    } break;
    case 1: m_[nm] = Matrix<Tv>(c.b[0], n, 1); s.FilterAr(&cm, &m_[nm++]); break;
    case 2: m_[nm] = Matrix<Tv>(c.b[0], n, 1); s.FilterMa(cm, smp, m_[nm++]); break;
    default:
      m_[0] = Matrix<Tv>(c.b[0], n, 1); m_[1] = Matrix<Tv>(c.b[1], n, 1); m_[2] = Matrix<Tv>(c.b[2], n, 1); m_[3] = Matrix<Tv>(c.b[3], sc, 1);
      s.SeasonalDecompositionMa(m_[0], m_[1], m_[2], m_[3], &cm, sc, mult, true, smp);
      nm = 4;
    }
  }
  void collect(Out &r) override {
    if (nv) r.add("v", v_, nv);
    for (int i = 0; i < nm; i++) r.add("m", m_[i]);
  }
  IN_DATA("descriptive data")
};
OP(OpDesc, 1);

struct OpMat : OpT<OpMat> { // matrix operations that use the numerical library or memory
  int n, k, what;
  PA d[3], b_;
  Matrix<Tv> m_[3];
  int nm;
  double v_;
  int info;
  void gen(Rng &g) {
    lapack = true;
    n = 1 + g.u(6); k = 1 + g.u(5); what = g.u(10);
    for (int i = 0; i < 3; i++) {
      d[i] = std::make_shared<Arr>(n, n);
      auto a = randn(g, n, n + 2);
      for (int r = 0; r < n; r++)
        for (int c = 0; c < n; c++) {
          double s = 0;
          for (int q = 0; q < n + 2; q++) s += (*a)(r, q) * (*a)(c, q);
          (*d[i])(r, c) = s;
        }
    }
    for (int r = 0; r < n; r++) (*d[2])(r, n - 1) = (*d[2])(n - 1, r) = 0;
    b_ = randn(g, n, k);
  }
  std::string describe() const override {
    char q[100];
    snprintf(q, sizeof q, "matrix operation %d n=%d k=%d", what, n, k);
    return q;
  }
  std::vector<size_t> sizes() override { return {(size_t)(n * n), (size_t)(n * std::max(n, k)), (size_t)std::max(n * n, n * k), (size_t)(n * n)}; }
  std::vector<size_t> isizes() override { return {(size_t)(n + 1)}; }
  void calc(int v, Ctx &c) override {
    auto A = d[v]->m();
    nm = 0;
    v_ = 0;
    info = 0;
    memcpy(c.b[0], d[v]->d.data(), n * n * sizeof(double));
    Matrix<Tv> C(c.b[0], n, n);
    memcpy(c.b[2], b_->d.data(), n * k * sizeof(double));
    Matrix<Tv> B(c.b[2], n, k);
    switch (what) {
    case 0: m_[nm] = Matrix<Tv>(c.b[1], n, n); info = A.Inv(m_[nm++]); break;
    case 1: info = C.Inv0(); m_[nm++] = C; break;
    case 2: info = C.Inv00(c.ib[0], c.b[3]); m_[nm++] = C; break;
    case 3: m_[nm] = Matrix<Tv>(c.b[1], n, n); info = A.Chol(m_[nm++], true); break;
    case 4: m_[nm] = Matrix<Tv>(c.b[1], n, n); info = A.Chol(m_[nm++], false); break;
    case 5: v_ = C.Det(); break;
    case 6: v_ = C.Det_pd0(); break;
    case 7: info = C.SolvePos0(B, true); m_[nm++] = B; break;
    case 8: {
      Matrix<Tv> Q(c.b[1], n, n), R(c.b[3], n, n);
      info = C.QR(Q, R); // in place
      m_[nm++] = Q;
      m_[nm++] = R;
    } break;
    default: info = C.SolveTrian0(B, true); m_[nm++] = B;
    }
    if (info != 0) throw LdtException(ErrorType::kLogic, "matrix", "the operation reported a failure");
  }
  void collect(Out &r) override {
    r.add("v", v_);
    for (int i = 0; i < nm; i++) r.add("m", m_[i]);
  }
  void inputs(const std::function<void(const void *, size_t, const char *)> &f) override {
    for (auto &x : d) in(f, x, "matrix");
    in(f, b_, "right-hand side");
  }
};
OP(OpMat, 2);

// ------------------------------------------------------------------ distributions
static DistributionBase *mkdist(Rng &g, bool anyv, char &t) {
  const char ts[] = {'n', 'l', 'u', 'c', 't', 'e', 'f', 'g', 'b', 'k', 'o', 'i', 's', 'r', 'a'};
  t = ts[g.u(anyv ? 15 : 10)];
  double a = 0.2 + g.real() * 2, b = 0.5 + g.real() * 2;
  switch (t) {
  case 'u': return DistributionBase::GetDistributionFromType((DistributionType)t, a, a + b, 0, 0).release();
  case 'c': case 't': return DistributionBase::GetDistributionFromType((DistributionType)t, 2 + g.u(8), 0, 0, 0).release();
  case 'f': return DistributionBase::GetDistributionFromType((DistributionType)t, 3 + g.u(8), 9 + g.u(8), 0, 0).release();
  case 'k': return DistributionBase::GetDistributionFromType((DistributionType)t, a, b, 0.1 + 0.3 * g.real(), 0.1 + 0.3 * g.real()).release();
  case 'o': return DistributionBase::GetDistributionFromType((DistributionType)t, g.u(4), 5 + g.u(6), 0, 0).release();
  case 'i': case 'r': return DistributionBase::GetDistributionFromType((DistributionType)t, 0.2 + 0.6 * g.real(), 0, 0, 0).release();
  case 'a': return DistributionBase::GetDistributionFromType((DistributionType)t, 0.2 + 0.6 * g.real(), 3 + g.u(8), 0, 0).release();
  default: return DistributionBase::GetDistributionFromType((DistributionType)t, a, b, 0, 0).release();
  }
}
struct OpSample : OpT<OpSample> {
  int len;
  uint64_t gs;
  unsigned seed[3];
  Own<DistributionBase> o;
  char t;
  Matrix<Tv> m;
  void gen(Rng &g) {
    seeded = true;
    len = 1 + g.u(40); gs = g.next();
    for (auto &s : seed) s = 1 + g.u(100000);
    Rng q(gs);
    char tt;
    delete mkdist(q, true, tt);
    t = tt;
  }
  std::string describe() const override {
    char q[100];
    snprintf(q, sizeof q, "sample of distribution %c length %d seed %u", t, len, seed[0]);
    return q;
  }
  void construct() override {
    Rng q(gs);
    char tt;
    o.take(mkdist(q, true, tt));
  }
  std::vector<size_t> sizes() override { return {(size_t)len}; }
  void calc(int v, Ctx &c) override {
    o->GetSample(c.b[0], len, seed[v]);
    m = Matrix<Tv>(c.b[0], len, 1);
  }
  void collect(Out &r) override { r.add("sample", m); }
  void destroy() override { o.kill(); }
};
OP(OpSample, 2);

struct OpDens : OpT<OpDens> { // density, distribution function, quantiles, moments
  uint64_t gs;
  double x[3];
  Own<DistributionBase> o;
  char t;
  double v_[20];
  int nv = 0;
  void gen(Rng &g) {
    gs = g.next();
    for (auto &s : x) s = 0.1 + 0.8 * g.real();
    Rng q(gs);
    char tt;
    delete mkdist(q, false, tt);
    t = tt;
  }
  std::string describe() const override { return std::string("functions of distribution ") + t; }
  void construct() override {
    Rng q(gs);
    char tt;
    o.take(mkdist(q, false, tt));
  }
  void calc(int v, Ctx &c) override {
    nv = 0;
    double q = o->GetQuantile(x[v]);
    v_[nv++] = q;
    if (t != 'k') { v_[nv++] = o->GetPdfOrPmf(q); v_[nv++] = o->GetCdf(q); v_[nv++] = o->GetPdfOrPmfLog(q); }
    v_[nv++] = o->GetMean(); v_[nv++] = o->GetVariance(); v_[nv++] = o->GetSkewness(); v_[nv++] = o->GetKurtosis();
    v_[nv++] = o->GetMinimum(); v_[nv++] = o->GetMaximum(); v_[nv++] = o->GetMedian();
  }
  void collect(Out &r) override { r.add("v", v_, nv); }
  void destroy() override { o.kill(); }
};
OP(OpDens, 1);

struct OpMix : OpT<OpMix> {
  int n, len;
  uint64_t gs;
  bool disc;
  std::vector<double> w;
  unsigned seed[3];
  Own<DistributionMixture> o;
  Own<std::vector<DistributionBase *>> ds;
  Matrix<Tv> m;
  double v_[12];
  int nv = 0;
  void gen(Rng &g) {
    seeded = true;
    n = 1 + g.u(4); len = 1 + g.u(30); gs = g.next();
    for (int i = 0; i < n; i++) w.push_back(0.1 + g.real());
    for (auto &s : seed) s = 1 + g.u(100000);
  }
  std::string describe() const override {
    char q[100];
    snprintf(q, sizeof q, "mixture of %d distributions, sample %d", n, len);
    return q;
  }
  void construct() override {
    ds.make();
    ds->reserve(n);
    Rng q(gs);
    for (int i = 0; i < n; i++)
      ds->push_back(DistributionBase::GetDistributionFromType(DistributionType::kNormal, q.normal(), 0.5 + q.real(), 0, 0).release());
    o.make(w, *ds);
  }
  std::vector<size_t> sizes() override { return {(size_t)len}; }
  void calc(int v, Ctx &c) override {
    nv = 0;
    o->GetSample(c.b[0], len, seed[v]);
    m = Matrix<Tv>(c.b[0], len, 1);
    double a = 0, b = 0, s = 0, k = 0;
    o->GetMoments(a, b, s, k);
    v_[nv++] = a; v_[nv++] = b; v_[nv++] = s; v_[nv++] = k;
    v_[nv++] = o->GetCdf(0.3); v_[nv++] = o->GetPdfOrPmf(0.3); v_[nv++] = o->GetMinimum();
  }
  void collect(Out &r) override { r.add("sample", m); r.add("v", v_, nv); }
  void destroy() override {
    o.kill();
    if (ds.p) for (auto p : *ds) delete p;
    ds.kill();
  }
};
OP(OpMix, 1);

struct OpEmp : OpT<OpEmp> {
  int n;
  bool w;
  PA d[3];
  std::vector<double> wt;
  Matrix<Tv> m;
  void gen(Rng &g) {
    n = 1 + g.u(3); w = g.u(2);
    double s = 0;
    for (int i = 0; i < n; i++) { wt.push_back(0.2 + g.real()); s += wt.back(); }
    for (auto &x : wt) x /= s;
    for (int i = 0; i < 3; i++) {
      d[i] = std::make_shared<Arr>(103, n);
      for (int j = 0; j < n; j++) {
        double mu = g.normal(), sd = 0.5 + g.real(), q = mu - 4 * sd;
        for (int r = 0; r < 103; r++) (*d[i])(r, j) = q += sd * 0.08 * (0.2 + g.real());
      }
    }
  }
  std::string describe() const override {
    char q[100];
    snprintf(q, sizeof q, "combination of %d quantile tables", n);
    return q;
  }
  std::vector<size_t> sizes() override { return {103}; }
  void calc(int v, Ctx &c) override {
    std::vector<DistributionEmpirical103> ds;
    for (int i = 0; i < n; i++) ds.push_back(DistributionEmpirical103(&d[v]->d[103 * i]));
    DistributionEmpirical103::Combine(ds, w ? wt.data() : nullptr, c.b[0]);
    m = Matrix<Tv>(c.b[0], 103, 1);
  }
  void collect(Out &r) override { r.add("q", m); }
  IN_DATA("quantiles")
};
OP(OpEmp, 0.3);

struct OpGld : OpT<OpGld> {
  double sk[3], ku[3];
  int type;
  Own<NelderMead> nm;
  double v_[4];
  void gen(Rng &g) {
    type = g.u(2);
    for (int i = 0; i < 3; i++) { sk[i] = g.real() - 0.5; ku[i] = 0.2 + 2 * g.real(); }
  }
  std::string describe() const override { return "generalised lambda distribution from moments"; }
  void construct() override { nm.make(2); }
  void calc(int v, Ctx &c) override {
    auto t = DistributionGld::GetFromMoments(0.3, 1.2, sk[v], ku[v], type, *nm);
    v_[0] = std::get<0>(t); v_[1] = std::get<1>(t); v_[2] = std::get<2>(t); v_[3] = std::get<3>(t);
  }
  void collect(Out &r) override { r.add("L", v_, 4); }
  void destroy() override { nm.kill(); }
};
OP(OpGld, 0.3);

struct OpHist : OpT<OpHist> {
  int n;
  PA d[3];
  Matrix<Tv> ax;
  Matrix<Ti> co;
  int bins;
  double mn, mx;
  bool nan;
  void gen(Rng &g) {
    n = 10 + g.u(25); nan = g.u(2);
    for (int i = 0; i < 3; i++) {
      d[i] = randn(g, n, 1);
      if (nan) for (int j = 0; j < (int)g.u(3); j++) d[i]->d[g.u(n)] = NAN;
    }
    d[2]->d[g.u(n)] = INFINITY;
  }
  std::string describe() const override {
    char q[100];
    snprintf(q, sizeof q, "histogram n=%d", n);
    return q;
  }
  std::vector<size_t> sizes() override { return {(size_t)n, 200}; }
  std::vector<size_t> isizes() override { return {201}; }
  void calc(int v, Ctx &c) override {
    memcpy(c.b[0], d[v]->d.data(), n * sizeof(double)); // sorted in place by design
    Matrix<Tv> x(c.b[0], n, 1);
    bins = 0;
    mn = mx = NAN;
    Ti s = Histogram::Compute(true, &x, nullptr, nullptr, bins, mn, mx, 1.5, nan);
    if (s > 200) throw std::logic_error("too many bins for this scenario");
    ax = Matrix<Tv>(c.b[1], s, 1);
    co = Matrix<Ti>(c.ib[0], s + 1, 1);
    Histogram::Compute(false, &x, &ax, &co, bins, mn, mx, 1.5, nan);
  }
  void collect(Out &r) override { r.add("axis", ax); r.addi("count", co); r.add("bins", bins); }
  IN_DATA("histogram data")
};
OP(OpHist, 0.5);

// ------------------------------------------------------------------ optimisers
struct OpOptim : OpT<OpOptim> { // kind 0 Nelder-Mead, 1 Newton, 2 L-BFGS-B, 3 derivatives, 4 Nelder-Mead in one dimension
  int kind, n;
  bool bounds;
  PA s[3], A;
  std::vector<double> lo, up;
  Own<NelderMead> nm;
  Own<Newton> nt;
  Own<LimitedMemoryBFGSB> lb;
  Own<Derivative> dv;
  double v_[4];
  int nv = 0;
  Matrix<Tv> m_[2];
  int mm = 0;
  void gen(Rng &g) {
    kind = g.u(5); n = kind == 4 ? 1 : 1 + g.u(3); bounds = g.u(2);
    optim = true;
    lapack = kind == 1;
    omp = kind == 3;
    A = randn(g, n, n);
    for (int i = 0; i < 3; i++) s[i] = randn(g, n, 1);
    for (int i = 0; i < n; i++) { lo.push_back(-3); up.push_back(3); }
  }
  std::string describe() const override {
    const char *nm_[] = {"Nelder-Mead", "Newton", "L-BFGS-B", "numerical derivatives", "one-dimensional simplex"};
    char q[100];
    snprintf(q, sizeof q, "%s n=%d bounds=%d", nm_[kind], n, bounds);
    return q;
  }
  void construct() override {
    switch (kind) {
    case 0: nm.make(n); nm->MaxIteration = 60; break;
    case 1: nt.make(n); break;
    case 2: lb.make(n); lb->Options.IterationMax = 20; break;
    case 3: dv.make(n, true, true); break;
    default: break;
    }
  }
  std::vector<size_t> sizes() override {
    switch (kind) {
    case 0: return {(size_t)nm->StorageSize, (size_t)nm->WorkSize};
    case 1: return {(size_t)nt->StorageSize, (size_t)nt->WorkSize, (size_t)n};
    case 2: return {(size_t)lb->StorageSize, (size_t)lb->WorkSize, (size_t)n};
    case 3: return {(size_t)dv->StorageSize1, (size_t)dv->StorageSize2, (size_t)dv->WorkSize};
    default: return {};
    }
  }
  double f(const Matrix<Tv> &x) const { // convex: |A x|^2 + |x - 1|^2 + sum exp(0.3 x)
    double r = 0;
    for (int i = 0; i < n; i++) {
      double t = 0;
      for (int j = 0; j < n; j++) t += (*A)(i, j) * x.Data[j];
      r += t * t + (x.Data[i] - 1) * (x.Data[i] - 1) + exp(0.3 * x.Data[i]);
    }
    return r;
  }
  void grad(const Matrix<Tv> &x, Matrix<Tv> &g) const {
    for (int k = 0; k < n; k++) {
      double r = 2 * (x.Data[k] - 1) + 0.3 * exp(0.3 * x.Data[k]);
      for (int i = 0; i < n; i++) {
        double t = 0;
        for (int j = 0; j < n; j++) t += (*A)(i, j) * x.Data[j];
        r += 2 * t * (*A)(i, k);
      }
      g.Data[k] = r;
    }
  }
  void hess(const Matrix<Tv> &x, Matrix<Tv> &h) const {
    for (int k = 0; k < n; k++)
      for (int l = 0; l < n; l++) {
        double r = k == l ? 2 + 0.09 * exp(0.3 * x.Data[k]) : 0;
        for (int i = 0; i < n; i++) r += 2 * (*A)(i, k) * (*A)(i, l);
        h.Data[k + l * n] = r;
      }
  }
  void calc(int v, Ctx &c) override {
    nv = mm = 0;
    auto F = [this](const Matrix<Tv> &x) -> Tv { return f(x); };
    auto G = [this](const Matrix<Tv> &x, Matrix<Tv> &g) { grad(x, g); };
    auto H = [this](const Matrix<Tv> &x, Matrix<Tv> &h) { hess(x, h); };
    auto st = s[v]->m();
    Matrix<Tv> L(lo.data(), n, 1), U(up.data(), n, 1);
    switch (kind) {
    case 0:
      nm->Minimize(F, st, c.b[1], c.b[0], bounds ? &L : nullptr, bounds ? &U : nullptr);
      v_[nv++] = nm->Min; v_[nv++] = nm->Iter; m_[mm++] = nm->Result;
      break;
    case 1: {
      memcpy(c.b[2], s[v]->d.data(), n * sizeof(double));
      m_[0] = Matrix<Tv>(c.b[2], n, 1);
      nt->Minimize(F, G, H, m_[0], c.b[0], c.b[1]);
      mm = 1;
      v_[nv++] = nt->FunctionValue; v_[nv++] = nt->Iteration; v_[nv++] = nt->gnorm;
    } break;
    case 2: {
      memcpy(c.b[2], s[v]->d.data(), n * sizeof(double));
      m_[0] = Matrix<Tv>(c.b[2], n, 1);
      lb->Minimize(F, G, m_[0], c.b[0], c.b[1], bounds ? &L : nullptr, bounds ? &U : nullptr);
      mm = 1;
      v_[nv++] = lb->FunctionValue; v_[nv++] = lb->Iteration;
    } break;
    case 3:
      dv->CalculateFirst(F, st, c.b[0], c.b[2]);
      dv->CalculateSecond(F, st, c.b[1], c.b[2]);
      m_[mm++] = dv->Result1;
      m_[mm++] = dv->Result2;
      break;
    default: {
      auto t = NelderMead::Minimize1([this](const Tv &x) -> Tv { Matrix<Tv> m(const_cast<double *>(&x), 1, 1); return f(m); }, s[v]->d[0], 0.1, 60, 1e-6, bounds ? -3 : NAN, bounds ? 3 : NAN);
      v_[nv++] = std::get<0>(t); v_[nv++] = std::get<1>(t);
    }
    }
  }
  void collect(Out &r) override {
    r.add("v", v_, nv);
    for (int i = 0; i < mm; i++) r.add("x", m_[i]);
  }
  void destroy() override { nm.kill(); nt.kill(); lb.kill(); dv.kill(); }
  void inputs(const std::function<void(const void *, size_t, const char *)> &fn) override {
    for (auto &x : s) in(fn, x, "starting point");
  }
};
OP(OpOptim, 2);

// ------------------------------------------------------------------ polynomials
struct OpPoly : OpT<OpPoly> {
  int kind, n1, n2, sz, ml;
  PA d[3];
  Own<PolynomialMultiply<Tv>> mu;
  Own<PolynomialPower<Tv>> po;
  Own<PolynomialMMultiply> mm;
  Own<PolynomialMInvert> iv;
  void gen(Rng &g) {
    kind = g.u(4); n1 = 1 + g.u(4); n2 = 1 + g.u(4); sz = 1 + g.u(3); ml = 1 + g.u(6);
    lapack = kind == 3;
    for (int i = 0; i < 3; i++) {
      d[i] = randn(g, 1, (n1 + 1 + n2 + 1) * sz * sz);
      for (int q = 0; q < sz; q++) d[i]->d[q * sz + q] += 3; // leading coefficient invertible
    }
    for (int q = 0; q < sz * sz; q++) d[2]->d[q] = 0;
  }
  std::string describe() const override {
    char q[100];
    snprintf(q, sizeof q, "polynomial operation %d degrees %d %d size %d", kind, n1, n2, sz);
    return q;
  }
  void construct() override {
    switch (kind) {
    case 0: mu.make(n1, n2); break;
    case 1: po.make(n2, n1); break;
    case 2: mm.make(sz, n1, n2); break;
    default: iv.make(sz, n1, ml); break;
    }
  }
  std::vector<size_t> sizes() override {
    switch (kind) {
    case 0: return {(size_t)mu->StorageSize};
    case 1: return {(size_t)po->StorageSize, (size_t)po->WorkSize};
    case 2: return {(size_t)mm->StorageSize};
    default: return {(size_t)iv->StorageSize, (size_t)iv->WorkSize};
    }
  }
  void calc(int v, Ctx &c) override {
    double *p = d[v]->d.data();
    if (kind < 2) {
      Matrix<Tv> a(p, n1 + 1, 1), b(p + n1 + 1, n2 + 1, 1);
      Polynomial<Tv> A, B;
      A.Data(a, false);
      B.Data(b, false);
      if (kind == 0) mu->Calculate(A, B, c.b[0]);
      else po->Calculate(A, n2, c.b[0], c.b[1]);
    } else {
      PolynomialM A, B;
      A.Data(n1, sz, p);
      B.Data(n2, sz, p + (n1 + 1) * sz * sz);
      if (kind == 2) mm->Calculate(A, B, c.b[0]);
      else iv->Calculate(A, c.b[0], c.b[1], ml);
    }
  }
  void collect(Out &r) override {
    if (kind == 0) r.add("c", mu->Result.Coefficients);
    if (kind == 1) r.add("c", po->Result.Coefficients);
    if (kind == 2) for (auto *m : mm->Result.Coefficients) r.add("c", *m);
    if (kind == 3) for (auto *m : iv->Result.Coefficients) r.add("c", *m);
  }
  void destroy() override { mu.kill(); po.kill(); mm.kill(); iv.kill(); }
  IN_DATA("polynomial coefficients")
};
OP(OpPoly, 1);

// ------------------------------------------------------------------ splits and data sets
struct OpSplit : OpT<OpSplit> {
  int N, k, fix, nch, rounds;
  bool disc;
  double ratio;
  unsigned seed[3];
  PA d[3];
  Own<DataSplit> a;
  Own<DataSplitDiscrete> b;
  std::vector<double> got;
  void gen(Rng &g) {
    seeded = true;
    N = 6 + g.u(25); k = 1 + g.u(3); disc = g.u(2); nch = 2 + g.u(2); rounds = 1 + g.u(4);
    fix = g.u(3) == 0 ? (int)(nch + g.u(N - 2 * nch + 1)) : 0;
    if (fix >= N) fix = N - 1;
    ratio = 0.3 + 0.5 * g.real();
    for (int i = 0; i < 3; i++) {
      d[i] = randn(g, N, k);
      for (int r = 0; r < N; r++) (*d[i])(r, 0) = disc ? (r < 2 * nch ? r % nch : (int)g.u(nch)) : r;
      seed[i] = 1 + g.u(1000);
    }
  }
  std::string describe() const override {
    char q[120];
    snprintf(q, sizeof q, "%s split N=%d k=%d train=%d/%.2f rounds=%d", disc ? "stratified" : "plain", N, k, fix, ratio, rounds);
    return q;
  }
  void construct() override {
    if (disc) b.make(N, k, nch);
    else a.make(N, k);
  }
  std::vector<size_t> sizes() override { return {(size_t)(disc ? b->StorageSize : a->StorageSize)}; }
  std::vector<size_t> isizes() override { return {(size_t)(disc ? b->WorkSizeI : a->WorkSizeI)}; }
  void calc(int v, Ctx &c) override {
    {
      sim::Harness h;
      got.clear();
    }
    auto m = d[v]->m();
    std::mt19937 eng(seed[v]);
    if (disc) b->Calculate(m, c.b[0], ratio, fix);
    else a->Calculate(m, c.b[0], ratio, fix);
    for (int i = 0; i < rounds; i++) {
      if (disc) b->Shuffle(m, c.ib[0], eng);
      else a->Shuffle(m, c.ib[0], eng);
      auto &s0 = disc ? b->Sample0 : a->Sample0;
      auto &s1 = disc ? b->Sample1 : a->Sample1;
      sim::Harness h;
      got.insert(got.end(), s0.Data, s0.Data + s0.length());
      got.push_back(s0.RowsCount);
      got.insert(got.end(), s1.Data, s1.Data + s1.length());
      got.push_back(s1.RowsCount);
    }
  }
  void collect(Out &r) override { r.v.push_back({"samples", got}); }
  void destroy() override { a.kill(); b.kill(); }
  IN_DATA("split data")
};
OP(OpSplit, 2);

struct OpDataset : OpT<OpDataset> {
  int N, k, kind;
  bool nan, sel;
  std::vector<Ti> idx;
  PA d[3];
  Own<Dataset<Tv>> a;
  Own<DatasetTs<true>> t;
  Own<DatasetTs<false>> f;
  Own<MatrixStandardized<Tv>> s;
  Matrix<Tv> src;
  bool rz, ce, sc;
  void gen(Rng &g) {
    N = 4 + g.u(12); k = 1 + g.u(4); kind = g.u(4); nan = g.u(2); sel = g.u(2); rz = g.u(2); ce = g.u(2); sc = g.u(2);
    for (int j = 0; j < k; j++) if (g.u(2)) idx.push_back(j);
    if (idx.empty()) idx.push_back(g.u(k));
    for (int i = 0; i < 3; i++) {
      d[i] = kind == 1 ? randn(g, k, N) : randn(g, N, k);
      if (nan && kind != 3)
        for (int q = 0; q < (int)g.u(3); q++) {
          int r = kind == 0 ? g.u(N) : g.u(2) ? 0 : N - 1, cc = g.u(k);
          if (kind == 1) (*d[i])(cc, r) = NAN;
          else (*d[i])(r, cc) = NAN;
        }
    }
    if (kind == 3) for (int r = 0; r < N; r++) (*d[2])(r, k - 1) = 5;
    else if (kind == 1) (*d[2])(0, N / 2) = NAN;
    else (*d[2])(N / 2, 0) = NAN;
  }
  std::string describe() const override {
    char q[120];
    const char *ks[] = {"data set", "time-series data set (rows)", "time-series data set (columns)", "standardised matrix"};
    snprintf(q, sizeof q, "%s N=%d k=%d nan=%d select=%d", ks[kind], N, k, nan, sel);
    return q;
  }
  void construct() override {
    switch (kind) {
    case 0: a.make(N, k, nan, sel); break;
    case 1: t.make(N, k, nan, sel); break; // rows and columns as the library's own callers give them
    case 2: f.make(N, k, nan, sel); break;
    default: s.make(N, k, rz, ce, sc); break;
    }
  }
  std::vector<size_t> sizes() override {
    switch (kind) {
    case 0: return {(size_t)a->StorageSize};
    case 1: return {(size_t)t->StorageSize};
    case 2: return {(size_t)f->StorageSize};
    default: return {(size_t)s->StorageSize};
    }
  }
  void calc(int v, Ctx &c) override {
    src = d[v]->m();
    switch (kind) {
    case 0: a->Calculate(src, sel ? &idx : nullptr, c.b[0]); break;
    case 1: t->Data(src); t->Update(sel ? &idx : nullptr, c.b[0]); break;
    case 2: f->Data(src); f->Update(sel ? &idx : nullptr, c.b[0]); break;
    default: s->Calculate(src, c.b[0]);
    }
  }
  void collect(Out &r) override {
    switch (kind) {
    case 0: r.add("r", a->Result); break;
    case 1: r.add("start", t->Start); r.add("end", t->End); r.add("missing", t->HasMissingData); if (!t->HasMissingData) r.add("r", t->Result); break;
    case 2: r.add("start", f->Start); r.add("end", f->End); r.add("missing", f->HasMissingData); if (!f->HasMissingData) r.add("r", f->Result); break;
    default: r.add("r", s->Result); r.addv("rem", s->RemovedZeroVar); break;
    }
  }
  void destroy() override { a.kill(); t.kill(); f.kill(); s.kill(); }
  IN_DATA("data set")
};
OP(OpDataset, 1);

struct OpVariable : OpT<OpVariable> { // build, write as text, read back, convert
  int n, cls;
  PA d[3];
  Own<std::vector<std::string>> li;
  Own<std::vector<boost::gregorian::date>> ld;
  Own<Variable<Tv>> v1, v2;
  Own<std::string> text;
  double eq;
  void gen(Rng &g) {
    n = 1 + g.u(12); cls = g.u(5);
    for (int i = 0; i < 3; i++) { d[i] = randn(g, n, 1); if (g.u(2)) d[i]->d[g.u(n)] = NAN; }
  }
  std::string describe() const override {
    char q[100];
    snprintf(q, sizeof q, "variable text n=%d frequency class %d", n, cls);
    return q;
  }
  void construct() override { li.make(); ld.make(); v1.make(); v2.make(); text.make(); }
  void calc(int v, Ctx &c) override {
    v1->Data.assign(d[v]->d.begin(), d[v]->d.end());
    v1->Name = "some name";
    v1->Fields.clear();
    v1->Fields.insert(std::pair<std::string, std::string>("field", "value"));
    switch (cls) {
    case 0: v1->StartFrequency = std::move(FrequencyCrossSection(3).Clone()); break;
    case 1: v1->StartFrequency = FrequencyYearBased::Yearly(1990); break;
    case 2: v1->StartFrequency = FrequencyYearBased::Quarterly(1990, 3); break;
    case 3: v1->StartFrequency = FrequencyYearBased::Monthly(2001, 11); break;
    default: v1->StartFrequency = FrequencyWeekBased::Daily(boost::gregorian::date(2000, 2, 28)); break;
    }
    *text = v1->ToString();
    Variable<Tv>::Parse(*text, *v2, *li, *ld);
    eq = v1->IsEqualTo(*v2);
    *text += v2->ToString();
    if (cls == 3) {
      Variable<Tv> q;
      std::function<Tv(const std::vector<Tv> &)> ag = [](const std::vector<Tv> &z) -> Tv { return z.at(0); };
      (void)ag;
    }
    Variables<Tv> vs({&*v1, &*v2});
    *text += std::to_string(vs.NumObs);
  }
  void collect(Out &r) override { r.adds("text", *text); r.add("eq", eq); }
  void destroy() override { li.kill(); ld.kill(); v1.kill(); v2.kill(); text.kill(); }
  IN_DATA("variable data")
};
OP(OpVariable, 1);

// Out-of-sample evaluation of SUR (P06), VARMA (P07) and discrete-choice models (P08), and the splits
// they use (P09), against references that estimate every iteration alone and add the scores up here.
// Library-routine and memory failures make iterations fail at seeded places.
#include "ops.h"
#include <algorithm>
#include <random>
using namespace ops;

static sim::World quiet(const sim::World &w0) {
  sim::World w = w0;
  w.omp_threads = 1;
  w.policy = sim::P_SERIAL;
  w.rules.clear();
  w.fill = sim::FILL_ZERO;
  w.race_fatal = w.oob_fatal = w.leak_fatal = false;
  w.event_budget = 800000000;
  return w;
}
static bool near(double a, double b, double rtol) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  return std::fabs(a - b) <= rtol * (1e-3 + std::max(std::fabs(a), std::fabs(b)));
}
static double bc(double v, double l) { // inverse Box-Cox
  if (std::isnan(l)) return v;
  return l == 0 ? std::exp(v) : std::pow(l * v + 1, 1 / l);
}
static double crps(double e, double s) {
  if (s == 0) return std::fabs(e);
  double z = e / s;
  return e * (std::erfc(-z / M_SQRT2) - 1) + s * (M_SQRT2 * std::exp(-0.5 * z * z) - 1) / std::sqrt(M_PI);
}
// rows of two samples are the rows of the whole, each once; "" if so
static std::string partition(const Matrix<Tv> &all, const Matrix<Tv> &a, const Matrix<Tv> &b) {
  auto rows = [](const Matrix<Tv> &m, std::vector<std::vector<uint64_t>> &o) {
    for (int i = 0; i < m.RowsCount; i++) {
      std::vector<uint64_t> r(m.ColsCount);
      for (int j = 0; j < m.ColsCount; j++) memcpy(&r[j], &m.Data[(size_t)j * m.RowsCount + i], 8);
      o.push_back(r);
    }
  };
  std::vector<std::vector<uint64_t>> x, y;
  rows(all, x);
  rows(a, y);
  rows(b, y);
  if (x.size() != y.size()) return "the parts have " + std::to_string(y.size()) + " rows, the data " + std::to_string(x.size());
  std::sort(x.begin(), x.end());
  std::sort(y.begin(), y.end());
  for (size_t i = 0; i < x.size(); i++)
    if (x[i] != y[i]) return "the rows of the two parts are not the rows of the data, each once";
  return "";
}
struct Iter { // one iteration of the reference
  bool ok = false;
  std::string msg;
  std::vector<double> sums;
  double n = 0;
  std::map<std::array<int, 3>, std::array<double, 5>> det;
};
static std::string histogram(const std::map<std::string, Ti> &e) {
  std::string s;
  for (auto &p : e) s += "[" + p.first + ": " + std::to_string(p.second) + "]";
  return s;
}
static void gen_fault(sim::World &w, int &kind, uint64_t calls, uint64_t allocs) {
  kind = (int)sim::ch(2) ? sim::F_LAPACK : sim::F_ALLOC;
  uint64_t n = kind == sim::F_LAPACK ? calls : allocs;
  if (!n) kind = sim::F_LAPACK, n = std::max<uint64_t>(1, calls);
  int rules = 1 + (int)sim::ch(2);
  for (int i = 0; i < rules; i++) w.rules.push_back({kind, sim::ch(n), sim::chance(0.7) ? 1 : 1 + sim::ch(n / 2 + 1), 0});
}
// is there a subset of `valid` of n members whose sums give the reported scores?
static bool some_subset(const std::vector<int> &valid, int n, const std::function<bool(const std::vector<int> &)> &good) {
  int v = (int)valid.size();
  for (int mask = 0; mask < (1 << v); mask++) {
    if (__builtin_popcount(mask) != n) continue;
    std::vector<int> s;
    for (int i = 0; i < v; i++)
      if (mask >> i & 1) s.push_back(valid[i]);
    if (good(s)) return true;
  }
  return false;
}

// ------------------------------------------------------------------ P06
namespace {
struct SurCase {
  int N, m, k, mode, fix, iters, seed, maxinv;
  double ratio, maxcn, prob = 0;
  std::vector<double> lam;
  std::vector<ScoringType> met;
  bool var = false;
  PA d;
  std::string text() const {
    char b[240];
    snprintf(b, sizeof b, "SUR evaluation N=%d m=%d k=%d mode=%d train=%d/%.3f iterations=%d seed=%d maxcn=%g maxinvalid=%d metrics=%zu boxcox=%zu", N, m, k, mode, fix, ratio, iters, seed, maxcn, maxinv, met.size(), lam.size());
    return b;
  }
};
SurCase gen_sur() {
  sim::Rng g(sim::chseed());
  SurCase c;
  c.N = 10 + g.u(20); c.m = 1 + g.u(3); c.k = 1 + g.u(3); c.mode = g.u(5) == 0 ? 2 : 0;
  c.iters = 1 + g.u(7); c.seed = 1 + g.u(100000);
  c.fix = g.u(3) == 0 ? std::max(c.k + 2, (int)(c.N * (0.4 + 0.4 * g.real()))) : 0;
  c.ratio = 0.45 + 0.45 * g.real();
  c.maxcn = g.u(3) == 0 ? 3 + 40 * g.real() * g.real() : INFINITY;
  c.maxinv = g.u(2) ? (int)g.u(c.iters + 1) : INT32_MAX;
  c.prob = c.mode ? 0.3 : 0;
  std::vector<ScoringType> all = {ScoringType::kSign, ScoringType::kMae, ScoringType::kMape, ScoringType::kRmse, ScoringType::kRmspe, ScoringType::kCrps};
  for (auto s : all)
    if (g.u(2)) c.met.push_back(s);
  if (c.met.empty()) c.met.push_back(all[g.u(6)]);
  for (int i = (int)c.met.size() - 1; i > 0; i--) std::swap(c.met[i], c.met[g.u(i + 1)]);
  for (auto s : c.met) c.var |= s == ScoringType::kSign || s == ScoringType::kCrps;
  c.d = regdata(g, c.N, c.m, c.k);
  if (g.u(4) == 0)
    for (int i = 0; i < c.m; i++) c.lam.push_back(g.u(3) == 0 ? 1 : g.u(2) ? 0.5 : 0);
  if (c.k > 1 && g.u(2)) { // a rare dummy: some training parts are singular
    int rare = 1 + g.u(3);
    for (int i = 0; i < c.N; i++) (*c.d)(i, c.m + 1) = 0;
    for (int i = 0; i < rare; i++) (*c.d)(g.u(c.N), c.m + 1) = 1;
  }
  if (g.u(6) == 0) (*c.d)(g.u(c.N), g.u(c.m)) = NAN;
  return c;
}
// least squares by elimination in long double: means of the test rows; false if nearly singular
bool plain_ols(const Matrix<Tv> &tr, const Matrix<Tv> &te, int m, int k, std::vector<double> &means) {
  int n0 = tr.RowsCount, n1 = te.RowsCount;
  std::vector<long double> A(k * k), B(k * m);
  auto get = [](const Matrix<Tv> &a, int i, int j) { return a.Data[(size_t)j * a.RowsCount + i]; };
  for (int a = 0; a < k; a++) {
    for (int b = 0; b < k; b++)
      for (int i = 0; i < n0; i++) A[a * k + b] += (long double)get(tr, i, m + a) * get(tr, i, m + b);
    for (int e = 0; e < m; e++)
      for (int i = 0; i < n0; i++) B[a * m + e] += (long double)get(tr, i, m + a) * get(tr, i, e);
  }
  for (int c = 0; c < k; c++) {
    int p = c;
    for (int r = c + 1; r < k; r++)
      if (fabsl(A[r * k + c]) > fabsl(A[p * k + c])) p = r;
    if (!(fabsl(A[p * k + c]) > 1e-9L)) return false;
    for (int j = 0; j < k; j++) std::swap(A[c * k + j], A[p * k + j]);
    for (int j = 0; j < m; j++) std::swap(B[c * m + j], B[p * m + j]);
    for (int r = 0; r < k; r++) {
      if (r == c) continue;
      long double f = A[r * k + c] / A[c * k + c];
      for (int j = 0; j < k; j++) A[r * k + j] -= f * A[c * k + j];
      for (int j = 0; j < m; j++) B[r * m + j] -= f * B[c * m + j];
    }
  }
  means.assign(n1 * m, 0);
  for (int e = 0; e < m; e++)
    for (int i = 0; i < n1; i++) {
      long double s = 0;
      for (int a = 0; a < k; a++) s += B[a * m + e] / A[a * k + a] * get(te, i, m + a);
      means[e * n1 + i] = (double)s;
    }
  return true;
}
// the reference; error: why no evaluation is possible at all
std::vector<Iter> sur_reference(const SurCase &c, const sim::World &q, std::string &error) {
  std::vector<Iter> r;
  sim::begin(q);
  int cols = c.m + c.k;
  auto all = c.d->m();
  int N0 = c.fix > 0 ? c.fix : (int)std::round(c.N * c.ratio), N1 = c.N - N0;
  DataSplit sp;
  std::vector<double> sst((size_t)c.N * cols + 1);
  std::vector<Ti> wi(c.N + 1);
  auto o = sim::sut([&] {
    sp = DataSplit(c.N, cols);
    sp.Calculate(all, sst.data(), c.ratio, c.fix);
  });
  if (!o.ok) {
    error = o.what;
    sim::end(false);
    return r;
  }
  std::mt19937 eng(c.seed);
  for (int it = 0; it < c.iters; it++) {
    Iter x;
    sim::sut([&] { sp.Shuffle(all, wi.data(), eng); });
    auto &tr = sp.Sample0, &te = sp.Sample1;
    if (tr.RowsCount != N0 || te.RowsCount != N1) sim::violate("wrong-split", "%s: the parts have %d and %d rows instead of %d and %d", c.text().c_str(), tr.RowsCount, te.RowsCount, N0, N1);
    auto ps = partition(all, tr, te);
    if (!ps.empty()) sim::violate("wrong-split", "%s: iteration %d: %s", c.text().c_str(), it, ps.c_str());
    std::vector<double> means(N1 * c.m), vars(N1 * c.m);
    double cn = 0;
    auto e = sim::sut([&] {
      Sur mod(N0, c.m, c.k, c.mode > 0, false, c.mode ? 2 : 0);
      SurProjection pr(N1, c.m, c.k, c.mode > 0, c.var);
      std::vector<double> st(mod.StorageSize + 1), wk(mod.WorkSize + 1), ps_(pr.StorageSize + 1), pw(pr.WorkSize + 1), rb((size_t)c.m * c.k * c.m * c.k + 1);
      Matrix<Tv> Y(tr.Data, N0, c.m), X(tr.Data + (size_t)N0 * c.m, N0, c.k), XT(te.Data + (size_t)N1 * c.m, N1, c.k), R(rb.data(), c.m * c.k, c.m * c.k);
      mod.Calculate(Y, X, st.data(), wk.data(), c.mode ? &R : nullptr, c.prob);
      pr.Calculate(mod, XT, ps_.data(), pw.data());
      cn = mod.condition_number;
      for (int i = 0; i < N1 * c.m; i++) {
        means[i] = pr.Means.Data[i];
        if (c.var) vars[i] = pr.Variances.Data[i];
      }
    });
    x.n = N1;
    if (!e.ok) x.msg = e.what;
    else if (cn > c.maxcn) x.msg = "cn";
    else {
      x.ok = true;
      if (c.mode == 0 && cn < 1e6) {
        std::vector<double> ms;
        if (plain_ols(tr, te, c.m, c.k, ms))
          for (int i = 0; i < N1 * c.m; i++)
            if (!std::isnan(ms[i]) && !near(ms[i], means[i], 1e-6)) sim::violate("wrong-forecast", "%s: iteration %d: forecast %d is %.17g, least squares on the training part gives %.17g", c.text().c_str(), it, i, means[i], ms[i]);
      }
      if (c.var)
        for (int i = 0; i < N1 * c.m; i++)
          if (std::isnan(vars[i])) x.ok = false, x.msg = "nan";
      std::vector<double> act(N1 * c.m), sd(N1 * c.m);
      for (int e2 = 0; e2 < c.m && x.ok; e2++)
        for (int i = 0; i < N1; i++) {
          int j = e2 * N1 + i;
          act[j] = te.Data[j];
          sd[j] = c.var ? std::sqrt(vars[j]) : NAN;
          if (c.lam.size()) act[j] = bc(act[j], c.lam[e2]), means[j] = bc(means[j], c.lam[e2]), sd[j] = bc(sd[j], c.lam[e2]);
          if (std::isnan(act[j] - means[j])) x.ok = false, x.msg = "nan";
        }
      if (x.ok)
        for (auto t : c.met)
          for (int e2 = 0; e2 < c.m; e2++) {
            double s = 0;
            for (int i = 0; i < N1; i++) {
              int j = e2 * N1 + i;
              double a = act[j], er = a - means[j];
              switch (t) {
              case ScoringType::kSign: s += a * means[j] > 0; break;
              case ScoringType::kMae: s += std::fabs(er); break;
              case ScoringType::kMape: s += std::fabs(er / a); break;
              case ScoringType::kRmse: s += er * er; break;
              case ScoringType::kRmspe: s += er / a * (er / a); break;
              default: s += crps(er, sd[j]);
              }
            }
            x.sums.push_back(s);
          }
    }
    r.push_back(x);
  }
  sim::end(false);
  return r;
}
double finish(ScoringType t, double sum, double n) {
  double v = sum / n;
  if (t == ScoringType::kRmse || t == ScoringType::kRmspe) v = std::sqrt(v);
  if (t == ScoringType::kMape || t == ScoringType::kRmspe) v *= 100;
  return v;
}
} // namespace

SCENARIO("P06", p06_sur_scores, 1) {
  SurCase c = gen_sur();
  sim::set_prefix(c.text());
  sim::World w = sim::gen_world(1);
  auto q = quiet(w);
  std::string impossible;
  auto ref = sur_reference(c, q, impossible);
  bool faulty = sim::chance(0.5);
  int again = (int)sim::ch(2);
  std::vector<int> valid;
  for (int i = 0; i < (int)ref.size(); i++)
    if (ref[i].ok) valid.push_back(i);
  uint64_t calls = 0, allocs = 0;
  for (int round = 0; round < (faulty ? 2 : 1); round++) { // without faults, then with
    sim::World wr = w;
    wr.rules.clear();
    wr.oob_fatal = true;
    int kind = -1;
    if (round) gen_fault(wr, kind, calls, allocs);
    uint64_t f0 = round ? sim::fault_fired(kind) : 0;
    SurSimulation *o = nullptr;
    sim::Outcome oc;
    std::vector<double> res;
    int vi = 0, vc = 0;
    std::map<std::string, Ti> errs;
    bool cancel = false;
    sim::begin(wr);
    oc = sim::sut([&] { o = new SurSimulation(c.N, c.m, c.k, c.ratio, c.fix, c.met, c.mode > 0, c.mode ? 2 : 0, nullptr, nullptr); });
    if (oc.ok) {
      o->KeepErrors = true;
      auto *st = (double *)sim::arena_new(o->StorageSize * 8, w.fill, 3, "storage"), *wk = (double *)sim::arena_new(o->WorkSize * 8, w.fill, 4, "work");
      auto *rb = (double *)sim::arena_new((size_t)c.m * c.k * c.m * c.k * 8, w.fill, 5, "restrictions");
      Matrix<Tv> R(rb, c.m * c.k, c.m * c.k);
      auto data = c.d->m();
      sim::protect(c.d->d.data(), c.d->d.size() * 8, "data");
      for (int rep = 0; rep < 1 + (round == 0 ? again : 0); rep++)
        oc = sim::sut([&] { o->Calculate(data, c.m, st, wk, c.mode ? &R : nullptr, cancel, c.iters, c.seed, c.prob, c.maxcn, c.maxinv, c.lam.size() ? &c.lam : nullptr); });
      sim::unprotect_all();
      if (oc.ok) {
        res.assign(o->Results.Data, o->Results.Data + o->Results.length());
        vi = o->ValidIters;
        vc = o->ValidCounts;
        errs = o->Errors;
      }
      sim::sut([&] { delete o; });
      sim::arena_free(st);
      sim::arena_free(wk);
      sim::arena_free(rb);
    }
    calls = sim::fault_seen(sim::F_LAPACK);
    allocs = sim::fault_seen(sim::F_ALLOC);
    sim::end(false);
    bool fired = round && sim::fault_fired(kind) > f0;
    std::string ctx = c.text() + (round ? kind == sim::F_LAPACK ? " with failing library routines" : " with failing memory requests" : "");
    sim::describe("%s", ctx.c_str());
    sim::observe(oc.ok);
    for (double d : res) sim::observe_d(d);
    if (!impossible.empty()) {
      if (oc.ok) sim::violate("impossible-split", "%s: succeeds although no split is possible (%s)", ctx.c_str(), impossible.c_str());
      continue;
    }
    int nv = (int)valid.size();
    if (!oc.ok) {
      if (!fired && c.iters - nv <= c.maxinv) sim::violate("failed", "%s: %d of %d iterations are valid, but the evaluation fails: %s", ctx.c_str(), nv, c.iters, oc.what.c_str());
      if (fired && kind == sim::F_LAPACK && c.maxinv >= c.iters) sim::violate("failed", "%s: a failing iteration ends the evaluation: %s", ctx.c_str(), oc.what.c_str());
      sim::probe("evaluation fails");
      sim::nontrivial();
      continue;
    }
    long ne = 0;
    for (auto &p : errs) ne += p.second;
    if (c.iters - vi > c.maxinv) sim::violate("too-few-valid", "%s: only %d of %d iterations are valid, a score is reported", ctx.c_str(), vi, c.iters);
    int N1 = valid.size() ? (int)ref[valid[0]].n : 0;
    if (vi + ne != c.iters) sim::violate("conservation", "%s: %d valid and %ld failed iterations of %d: %s", ctx.c_str(), vi, ne, c.iters, histogram(errs).c_str());
    if (vi && vc != vi * N1) sim::violate("conservation", "%s: %d evaluated observations in %d iterations of %d", ctx.c_str(), vc, vi, N1);
    if (fired ? vi > nv : vi != nv) sim::violate("wrong-count", "%s: %d iterations are counted as valid, %d are", ctx.c_str(), vi, nv);
    if (!fired) {
      std::map<std::string, Ti> e2;
      for (auto &x : ref)
        if (!x.ok && x.msg != "cn" && x.msg != "nan") e2[x.msg]++;
      for (auto &p : e2)
        if (errs[p.first] != p.second) sim::violate("wrong-message", "%s: failure '%s' happened %d times, listed %d times (%s)", ctx.c_str(), p.first.c_str(), p.second, errs[p.first], histogram(errs).c_str());
    }
    std::string first;
    auto good = [&](const std::vector<int> &s) {
      size_t j = 0;
      for (size_t i = 0; i < c.met.size(); i++)
        for (int e = 0; e < c.m; e++, j++) {
          double sum = 0;
          for (int t : s) sum += ref[t].sums[i * c.m + e];
          double v = finish(c.met[i], sum, (double)s.size() * N1), got = res[e * c.met.size() + i];
          if (s.empty() ? !std::isfinite(got) : near(got, v, 1e-8)) continue;
          char b[200];
          snprintf(b, sizeof b, "score %d of equation %d is %.17g, the valid iterations give %.17g", (int)c.met[i], e, got, v);
          first = b;
          return false;
        }
      return true;
    };
    if (fired ? !some_subset(valid, vi, good) : !good(valid)) sim::violate("wrong-score", "%s: %s (%d of %d valid)", ctx.c_str(), first.c_str(), vi, c.iters);
    if (vi) sim::nontrivial();
    if (vi < c.iters) sim::probe("some iterations fail");
    if (vi < nv) sim::probe("iterations fail by an injected fault");
    if (vi == 0) sim::probe("no valid iteration");
    uint64_t pat = 1;
    for (auto &x : ref) pat = pat * 2 + x.ok;
    sim::state_key((pat * 64 + (nv - vi)) * 64 + c.met.size() * 4 + c.mode + (uint64_t)(kind + 1) * 1000003);
  }
}

// ------------------------------------------------------------------ P08
namespace {
struct DcCase {
  int N, k, fix, iters, seed, maxinv;
  bool probit, weight, wev, brier, auc, freq, rocDefault = true;
  double ratio;
  std::vector<Arr> costs;
  RocOptions roc;
  PA d;
  std::string text() const {
    char b[260];
    snprintf(b, sizeof b, "choice evaluation N=%d k=%d %s weight=%d/%d train=%d/%.3f iterations=%d seed=%d maxinvalid=%d auc=%d brier=%d freq=%d costs=%zu", N, k, probit ? "probit" : "logit", weight, wev, fix, ratio, iters, seed, maxinv, auc, brier, freq, costs.size());
    return b;
  }
};
DcCase gen_dc() {
  sim::Rng g(sim::chseed());
  DcCase c;
  c.N = 14 + g.u(26); c.k = 1 + g.u(3); c.probit = g.u(2); c.weight = g.u(2); c.wev = g.u(2);
  c.auc = g.u(3) != 0; c.brier = g.u(2); c.freq = !c.auc && !c.brier ? true : g.u(2);
  c.iters = 1 + g.u(6); c.seed = 1 + g.u(100000);
  c.fix = g.u(4) == 0 ? (int)(c.N * (0.4 + 0.4 * g.real())) : 0;
  c.ratio = 0.4 + 0.5 * g.real();
  c.maxinv = g.u(2) ? (int)g.u(c.iters + 1) : INT32_MAX;
  int off = c.weight ? 2 : 1;
  c.d = std::make_shared<Arr>(c.N, off + c.k);
  double base = 2.5 * (g.real() - 0.5);
  for (int i = 0; i < c.N; i++) {
    double s = base + g.normal();
    for (int j = 0; j < c.k; j++) {
      double v = j == 0 ? 1 : g.normal();
      (*c.d)(i, off + j) = v;
      if (j) s += 0.6 * v;
    }
    (*c.d)(i, 0) = s > 0;
    if (c.weight) (*c.d)(i, 1) = 0.4 + g.real();
  }
  (*c.d)(0, 0) = (*c.d)(1, 0) = 0;
  (*c.d)(2, 0) = (*c.d)(3, 0) = 1;
  if (c.k > 1 && g.u(2)) { // a rare dummy
    for (int i = 0; i < c.N; i++) (*c.d)(i, off + 1) = 0;
    int rare = 1 + g.u(3);
    for (int i = 0; i < rare; i++) (*c.d)(g.u(c.N), off + 1) = 1;
  }
  if (g.u(2)) {
    int n = 1 + g.u(2);
    for (int i = 0; i < n; i++) {
      int t = 2 + g.u(2);
      Arr a(t, 3);
      bool full = g.u(4) != 0;
      for (int j = 0; j < t; j++) {
        a(j, 0) = (j + 1.0) / t * (full ? 1 : 0.9);
        for (int q = 0; q < 2; q++) a(j, 1 + q) = g.u(4);
      }
      c.costs.push_back(a);
    }
  }
  if (g.u(3) == 0) {
    c.rocDefault = false;
    if (g.u(2)) { c.roc.LowerThreshold = 0.1 + 0.2 * g.real(); c.roc.UpperThreshold = 0.6 + 0.3 * g.real(); }
    if (g.u(2)) c.roc.Epsilon = 0.05;
    c.roc.Pessimistic = g.u(2);
    c.roc.NormalizePoints = g.u(2);
  }
  return c;
}
// sums: [brier, auc, cost sums.., cost counts.., 20 frequencies]
std::vector<Iter> dc_reference(const DcCase &c, const sim::World &q, std::string &error) {
  std::vector<Iter> r;
  sim::begin(q);
  int off = c.weight ? 2 : 1, cols = off + c.k;
  auto all = c.d->m();
  int N0 = c.fix > 0 ? c.fix : (int)std::round(c.N * c.ratio), N1 = c.N - N0;
  DataSplitDiscrete *sp = nullptr;
  std::vector<double> sst((size_t)c.N * cols + 1);
  std::vector<Ti> wi(c.N + 1);
  auto o = sim::sut([&] {
    sp = new DataSplitDiscrete(c.N, cols, 2);
    sp->Calculate(all, sst.data(), c.ratio, c.fix);
  });
  if (N0 <= 0 || N0 >= c.N) o.ok = false, o.what = "size";
  std::mt19937 eng(c.seed);
  for (int it = 0; o.ok && it < c.iters; it++) {
    Iter x;
    o = sim::sut([&] { sp->Shuffle(all, wi.data(), eng); });
    if (!o.ok) break;
    auto &tr = sp->Sample0, &te = sp->Sample1;
    if (tr.RowsCount != N0 || te.RowsCount != N1) sim::violate("wrong-split", "%s: the parts have %d and %d rows instead of %d and %d", c.text().c_str(), tr.RowsCount, te.RowsCount, N0, N1);
    auto ps = partition(all, tr, te);
    if (!ps.empty()) sim::violate("wrong-split", "%s: iteration %d: %s", c.text().c_str(), it, ps.c_str());
    int ones = 0;
    for (int i = 0; i < N0; i++) ones += tr.Data[i] == 1;
    if (ones == 0 || ones == N0) sim::violate("wrong-split", "%s: iteration %d: the training part has one outcome only", c.text().c_str(), it);
    std::vector<double> p(N1 * 2);
    auto e = sim::sut([&] {
      auto mod = DiscreteChoiceBase::GetFromType(DiscreteChoiceModelType::kBinary, c.probit ? DiscreteChoiceDistType::kProbit : DiscreteChoiceDistType::kLogit, N0, c.k, 2, false);
      std::vector<double> st(mod->StorageSize + 1), wk(mod->WorkSize + 1), w2(N1 + c.k + 4);
      Matrix<Tv> y(tr.Data, N0, 1), w(tr.Data + N0, N0, 1), X(tr.Data + (size_t)off * N0, N0, c.k), XT(te.Data + (size_t)off * N1, N1, c.k), P(p.data(), N1, 2);
      mod->Calculate(y, X, c.weight ? &w : nullptr, st.data(), wk.data(), 2, true);
      mod->GetProbabilities(XT, P, w2.data());
    });
    if (!e.ok) x.msg = e.what;
    else {
      x.ok = true;
      for (double v : p)
        if (std::isnan(v)) x.ok = false, x.msg = "nan";
    }
    auto W = [&](int i) { return c.weight && c.wev ? te.Data[N1 + i] : 1.0; };
    if (x.ok) {
      double br = 0, sw = 0;
      for (int i = 0; i < N1; i++) {
        double w = c.weight ? te.Data[N1 + i] : 1, dd = te.Data[i] - p[N1 + i];
        br += w * dd * dd;
        sw += w;
      }
      x.sums.push_back(br / sw);
      double A = 0;
      if (c.auc) {
        if (c.rocDefault) {
          double num = 0, wp = 0, wn = 0;
          for (int i = 0; i < N1; i++)
            if (te.Data[i] != 0) {
              wp += W(i);
              for (int j = 0; j < N1; j++)
                if (te.Data[j] == 0) num += W(i) * W(j) * (p[i] < p[j] ? 1 : p[i] == p[j] ? 0.5 : 0);
            } else wn += W(i);
          A = num / (wp * wn);
        } else {
          std::vector<double> wv(N1);
          for (int i = 0; i < N1; i++) wv[i] = W(i);
          Matrix<Tv> y(te.Data, N1, 1), s(p.data(), N1, 1), wm(wv.data(), N1, 1);
          auto e2 = sim::sut([&] {
            ROC<true, false> roc(N1);
            roc.Calculate(y, s, &wm, c.roc);
            A = roc.Result;
          });
          if (!e2.ok) x.ok = false, x.msg = e2.what;
        }
      }
      x.sums.push_back(A);
      std::vector<double> cc;
      for (auto &cm : c.costs) {
        double s = 0, n = 0;
        for (int i = 0; i < N1; i++) {
          int y = (int)te.Data[i];
          double pr = p[y * N1 + i];
          int row = 0;
          while (row < cm.r && !(cm(row, 0) >= pr)) row++;
          if (row == cm.r) {
            x.ok = false;
            x.msg = "threshold";
            break;
          }
          s += cm(row, 1 + y) * W(i);
          n += W(i);
        }
        x.sums.push_back(s);
        cc.push_back(n);
      }
      x.sums.insert(x.sums.end(), cc.begin(), cc.end());
      std::vector<double> F(20);
      for (int i = 0; i < N1; i++) {
        int y = (int)te.Data[i];
        double pr = p[y * N1 + i];
        F[y * 10 + std::min(9, (int)std::floor(pr * 10))] += c.weight ? te.Data[N1 + i] : 1;
      }
      x.sums.insert(x.sums.end(), F.begin(), F.end());
    }
    r.push_back(x);
  }
  if (!o.ok) error = o.what.empty() ? "?" : o.what;
  sim::sut([&] { delete sp; });
  sim::end(false);
  return r;
}
} // namespace

SCENARIO("P08", p08_choice_scores, 1) {
  DcCase c = gen_dc();
  sim::set_prefix(c.text());
  sim::World w = sim::gen_world(1);
  w.event_budget = 800000000;
  auto q = quiet(w);
  std::string impossible;
  auto ref = dc_reference(c, q, impossible);
  bool faulty = sim::chance(0.5), again = sim::chance(0.3);
  std::vector<int> valid;
  for (int i = 0; i < (int)ref.size(); i++)
    if (ref[i].ok) valid.push_back(i);
  uint64_t calls = 0, allocs = 0;
  for (int round = 0; round < (faulty ? 2 : 1); round++) {
    sim::World wr = w;
    wr.rules.clear();
    wr.oob_fatal = true;
    int kind = -1;
    if (round) gen_fault(wr, kind, calls, allocs);
    uint64_t f0 = round ? sim::fault_fired(kind) : 0;
    std::unique_ptr<DiscreteChoiceSimBase> o;
    std::vector<Matrix<Tv>> cm;
    for (auto &a : c.costs) cm.push_back(a.m());
    std::map<std::string, Ti> errs;
    sim::Outcome oc;
    double auc = 0, brier = 0;
    std::vector<double> ratios, freq;
    int vi = 0;
    bool cancel = false;
    sim::begin(wr);
    oc = sim::sut([&] { o = DiscreteChoiceSimBase::GetFromType(c.weight, DiscreteChoiceModelType::kBinary, c.probit ? DiscreteChoiceDistType::kProbit : DiscreteChoiceDistType::kLogit, c.N, c.k + (c.weight ? 2 : 1), 2, c.ratio, c.fix, (Ti)cm.size(), c.brier, c.auc, c.freq, nullptr, c.wev); });
    if (oc.ok) {
      o->Seed = c.seed;
      o->SimulationMax = c.iters;
      auto *st = (double *)sim::arena_new(o->StorageSize * 8, w.fill, 3, "storage"), *wk = (double *)sim::arena_new(o->WorkSize * 8, w.fill, 4, "work");
      auto *wi = (int *)sim::arena_new(o->WorkSizeI * 4, w.fill, 5, "integer work");
      auto data = c.d->m();
      sim::protect(c.d->d.data(), c.d->d.size() * 8, "data");
      auto roc = c.roc;
      for (int rep = 0; rep < (round == 0 && again ? 2 : 1); rep++) oc = sim::sut([&] { errs.clear(); o->Calculate(data, cm.size() ? &cm : nullptr, st, wk, wi, cancel, roc, true, &errs, c.maxinv); });
      sim::unprotect_all();
      if (oc.ok) {
        auc = o->Auc;
        brier = o->BrierScore;
        vi = o->ValidSimulationCount;
        if (cm.size()) ratios.assign(o->CostRatios.Data, o->CostRatios.Data + cm.size());
        if (c.freq) freq.assign(o->FrequencyTable.Data, o->FrequencyTable.Data + 20);
      }
      sim::sut([&] { o.reset(); });
      sim::arena_free(st);
      sim::arena_free(wk);
      sim::arena_free(wi);
    }
    calls = sim::fault_seen(sim::F_LAPACK);
    allocs = sim::fault_seen(sim::F_ALLOC);
    long ne = 0;
    std::map<std::string, Ti> ec;
    for (auto &p : errs) ne += p.second, ec[p.first] = p.second;
    sim::sut([&] { errs.clear(); });
    sim::end(false);
    bool fired = round && sim::fault_fired(kind) > f0;
    std::string ctx = c.text() + (round ? kind == sim::F_LAPACK ? " with failing library routines" : " with failing memory requests" : "");
    sim::describe("%s", ctx.c_str());
    sim::observe(oc.ok);
    sim::observe_d(auc);
    sim::observe_d(brier);
    if (!impossible.empty()) {
      if (oc.ok) sim::violate("impossible-split", "%s: succeeds although no split is possible (%s)", ctx.c_str(), impossible.c_str());
      continue;
    }
    int nv = (int)valid.size();
    if (!oc.ok) {
      if (!fired && nv && c.iters - nv <= c.maxinv) sim::violate("failed", "%s: %d of %d iterations are valid, but the evaluation fails: %s", ctx.c_str(), nv, c.iters, oc.what.c_str());
      if (fired && kind == sim::F_LAPACK && c.maxinv >= c.iters && ne < c.iters) sim::violate("failed", "%s: a failing iteration ends the evaluation: %s", ctx.c_str(), oc.what.c_str());
      sim::probe("evaluation fails");
      sim::nontrivial();
      continue;
    }
    if (vi == 0) sim::violate("too-few-valid", "%s: no iteration is valid, a score is reported", ctx.c_str());
    if (c.iters - vi > c.maxinv) sim::violate("too-few-valid", "%s: only %d of %d iterations are valid, a score is reported", ctx.c_str(), vi, c.iters);
    if (vi + ne != c.iters) sim::violate("conservation", "%s: %d valid and %ld failed iterations of %d: %s", ctx.c_str(), vi, ne, c.iters, histogram(ec).c_str());
    if (fired ? vi > nv : vi != nv) sim::violate("wrong-count", "%s: %d iterations are counted as valid, %d are", ctx.c_str(), vi, nv);
    if (!fired) {
      std::map<std::string, Ti> e2;
      for (auto &x : ref)
        if (!x.ok && x.msg != "threshold" && x.msg != "nan") e2[x.msg]++;
      for (auto &p : e2)
        if (ec[p.first] != p.second) sim::violate("wrong-message", "%s: failure '%s' happened %d times, listed %d times (%s)", ctx.c_str(), p.first.c_str(), p.second, ec[p.first], histogram(ec).c_str());
    }
    std::string first;
    auto good = [&](const std::vector<int> &s) {
      auto sum = [&](size_t i) {
        double x = 0;
        for (int t : s) x += ref[t].sums[i];
        return x;
      };
      char b[200];
      double rt = fired ? 1e-5 : 1e-9, e;
      if (c.brier && !near(brier, e = sum(0) / s.size(), rt)) {
        snprintf(b, sizeof b, "Brier score is %.17g, the valid iterations give %.17g", brier, e);
        first = b;
        return false;
      }
      if (c.auc && !near(auc, e = sum(1) / s.size(), rt)) {
        snprintf(b, sizeof b, "AUC is %.17g, the valid iterations give %.17g", auc, e);
        first = b;
        return false;
      }
      size_t nc = ratios.size();
      for (size_t i = 0; i < nc; i++)
        if (!near(ratios[i], e = sum(2 + i) / sum(2 + nc + i), rt)) {
          snprintf(b, sizeof b, "cost ratio %zu is %.17g, the valid iterations give %.17g", i, ratios[i], e);
          first = b;
          return false;
        }
      for (size_t i = 0; i < freq.size(); i++)
        if (!near(freq[i], e = sum(2 + 2 * nc + i), rt)) {
          snprintf(b, sizeof b, "frequency %zu is %.17g, the valid iterations give %.17g", i, freq[i], e);
          first = b;
          return false;
        }
      return true;
    };
    if (fired ? !some_subset(valid, vi, good) : !good(valid)) sim::violate("wrong-score", "%s: %s (%d of %d valid; %s)", ctx.c_str(), first.c_str(), vi, c.iters, sim::failed_lapack());
    sim::nontrivial();
    if (vi < c.iters) sim::probe("some iterations fail");
    if (vi < nv) sim::probe("iterations fail by an injected fault");
    uint64_t pat = 1;
    for (auto &x : ref) pat = pat * 2 + x.ok;
    sim::state_key((pat * 64 + (nv - vi)) * 64 + c.auc * 8 + c.brier * 4 + c.freq * 2 + c.weight + (uint64_t)(kind + 1) * 1000003);
  }
}

// the partition alone, for any sizes of the groups
SCENARIO("P08", p08_split, 0.12) {
  sim::Rng g(sim::chseed());
  int k = 2 + g.u(3), cols = 1 + g.u(3);
  std::vector<int> cnt(k);
  int N = 0;
  for (auto &x : cnt) N += x = g.u(4) == 0 ? 1 + g.u(2) : 1 + g.u(14);
  double ratio = g.u(2) ? 0.02 + 0.96 * g.real() : 0.3 + 0.5 * g.real();
  int fix = g.u(3) ? 0 : 1 + (int)g.u(N + 2);
  std::vector<int> y;
  for (int i = 0; i < k; i++)
    for (int j = 0; j < cnt[i]; j++) y.push_back(i);
  for (int i = N - 1; i > 0; i--) std::swap(y[i], y[g.u(i + 1)]);
  Arr d(N, cols);
  for (int i = 0; i < N; i++)
    for (int j = 0; j < cols; j++) d(i, j) = j ? g.normal() : y[i];
  int rounds = 1 + g.u(4);
  unsigned seed = g.u(1 << 30);
  std::string ct;
  for (int x : cnt) ct += (ct.empty() ? "" : ",") + std::to_string(x);
  sim::set_prefix("stratified partition");
  sim::describe("stratified partition of %s rows, training %g / %d, %d rounds", ct.c_str(), ratio, fix, rounds);
  sim::World w = sim::gen_world(1);
  w.oob_fatal = true;
  int N0 = fix > 0 ? fix : (int)std::round(N * ratio);
  sim::begin(w);
  DataSplitDiscrete *sp = nullptr;
  auto all = d.m();
  double *st = nullptr;
  Ti *wi = nullptr;
  auto o = sim::sut([&] { sp = new DataSplitDiscrete(N, cols, k); });
  if (o.ok) {
    st = (double *)sim::arena_new((size_t)sp->StorageSize * 8, w.fill, 3, "storage");
    wi = (Ti *)sim::arena_new((size_t)sp->WorkSizeI * 4, w.fill, 4, "integer work");
    o = sim::sut([&] { sp->Calculate(all, st, ratio, fix); });
  }
  bool can = N0 > 0 && N0 < N; // (an empty test part is the caller's to refuse)
  if (!o.ok && can) sim::violate("wrong-split", "%d rows of %d for training: %s", N0, N, o.what.c_str());
  std::mt19937 eng(seed), eng2(seed);
  std::vector<double> one;
  for (int r = 0; o.ok && r < rounds; r++) {
    o = sim::sut([&] { sp->Shuffle(all, wi, eng); });
    if (!o.ok) break;
    if (N0 <= 0 || N0 > N) sim::violate("wrong-split", "%d rows of %d for training: accepted", N0, N);
    auto &tr = sp->Sample0, &te = sp->Sample1;
    if (tr.RowsCount != N0 || te.RowsCount != N - N0) sim::violate("wrong-split", "the parts have %d and %d rows instead of %d and %d", tr.RowsCount, te.RowsCount, N0, N - N0);
    auto ps = partition(all, tr, te);
    if (!ps.empty()) sim::violate("wrong-split", "round %d: %s", r, ps.c_str());
    std::vector<int> in(k);
    for (int i = 0; i < N0; i++) in[(int)tr.Data[i]]++;
    std::vector<int> big(k);
    for (int i = 0; i < k; i++) big[i] = i;
    int last = (int)(std::max_element(cnt.begin(), cnt.end()) - cnt.begin());
    for (int i = 0; i < k; i++) {
      if (!in[i]) sim::violate("wrong-split", "round %d: no row of outcome %d (of %d) is in the training part", r, i, cnt[i]);
      // every outcome but the most frequent one has its share
      if (cnt[i] != cnt[last] && in[i] != std::max(1, std::min(cnt[i] - 1, (int)std::round(ratio * cnt[i])))) sim::violate("wrong-split", "round %d: %d of %d rows of outcome %d are in the training part, the ratio is %g", r, in[i], cnt[i], i, ratio);
    }
    if (r == 0) one.assign(tr.Data, tr.Data + tr.length());
    for (int i = 0; i < N0; i++) sim::observe_d(tr.Data[i + (cols - 1) * N0]);
    sim::nontrivial();
  }
  if (o.ok) { // the same engine gives the same parts
    o = sim::sut([&] { sp->Shuffle(all, wi, eng2); });
    if (!o.ok || std::vector<double>(sp->Sample0.Data, sp->Sample0.Data + sp->Sample0.length()) != one) sim::violate("wrong-split", "the same engine gives other parts");
  } else
    sim::probe("partition refused");
  sim::state_key((((uint64_t)(ratio * 20) * 64 + k) * 64 + N) * 64 + fix);
  sim::sut([&] { delete sp; });
  sim::arena_free(st);
  sim::arena_free(wi);
  sim::end(true);
}

// ------------------------------------------------------------------ P07
namespace {
struct VarCase {
  int T, m, k, p, D_, q, P, DS, Q, s, count, maxinv;
  bool ext, prev, restr;
  double maxcn;
  std::vector<double> lam;
  std::vector<Ti> hor;
  std::vector<ScoringType> met;
  bool var = false;
  LimitedMemoryBfgsbOptions oo;
  PA d, y, x; // T x (m + k); m x T; k x T
  std::string text() const {
    char b[300];
    snprintf(b, sizeof b, "VARMA evaluation T=%d m=%d k=%d (%d,%d,%d)(%d,%d,%d)_%d count=%d horizons=%zu max %d extended=%d previous=%d restricted=%d boxcox=%zu maxcn=%g maxinvalid=%d", T, m, k, p, D_, q, P, DS, Q, s, count, hor.size(), hor.back(), ext, prev, restr, lam.size(), maxcn, maxinv);
    return b;
  }
};
VarCase gen_var() {
  sim::Rng g(sim::chseed());
  VarCase c;
  c.T = 16 + g.u(14); c.m = 1 + g.u(2); c.k = g.u(3); c.count = 1 + g.u(6);
  c.ext = g.u(3) == 0; c.prev = g.u(2);
  c.P = c.DS = c.Q = c.s = 0;
  c.p = g.u(3); c.D_ = g.u(3) == 0; c.q = g.u(4) == 0;
  if (g.u(4) == 0) { c.s = 2 + g.u(3); c.P = g.u(2); c.DS = g.u(4) == 0; }
  if (c.p + c.q + c.P == 0) c.p = 1;
  if (c.P + c.DS == 0) c.s = 0;
  c.restr = !c.ext && c.q && g.u(2);
  c.oo.IterationMax = 3 + g.u(6);
  if (g.u(4) == 0) for (int i = 0; i < c.m; i++) c.lam.push_back(g.u(3) == 0 ? 1 : g.u(2) ? 0.5 : 0.0);
  c.maxcn = g.u(3) == 0 || (c.q && c.prev && g.u(2)) ? std::pow(10, 1.5 + 3 * g.real()) : 1e12;
  c.maxinv = g.u(2) ? (int)g.u(c.count + 1) : INT32_MAX;
  int hm = 1 + g.u(4);
  for (int i = 1; i <= hm; i++) if (g.u(2) || (i == hm && c.hor.empty())) c.hor.push_back(i);
  std::vector<ScoringType> all = {ScoringType::kDirection, ScoringType::kSign, ScoringType::kMae, ScoringType::kMape, ScoringType::kRmse, ScoringType::kRmspe, ScoringType::kCrps};
  for (auto t : all) if (g.u(2)) c.met.push_back(t);
  if (c.met.empty()) c.met.push_back(all[g.u(7)]);
  for (int i = (int)c.met.size() - 1; i > 0; i--) std::swap(c.met[i], c.met[g.u(i + 1)]);
  for (auto t : c.met) c.var |= t == ScoringType::kDirection || t == ScoringType::kSign || t == ScoringType::kCrps;
  c.d = vardata(g, c.T, c.m, c.k);
  double shift = g.u(3) == 0 ? -1.5 : 3;
  for (int t = 0; t < c.T; t++)
    for (int e = 0; e < c.m; e++) (*c.d)(t, e) += shift;
  if (c.k > 1 && g.u(3) == 0) { // a dummy that is still constant at early origins
    int at = c.T - 1 - g.u(c.count + 2);
    for (int t = 0; t < c.T; t++) (*c.d)(t, c.m + 1) = t >= at;
  }
  c.y = std::make_shared<Arr>(c.m, c.T);
  c.x = std::make_shared<Arr>(std::max(1, c.k), c.T);
  for (int t = 0; t < c.T; t++) {
    for (int e = 0; e < c.m; e++) (*c.y)(e, t) = (*c.d)(t, e);
    for (int e = 0; e < c.k; e++) (*c.x)(e, t) = (*c.d)(t, c.m + e);
  }
  return c;
}
// one entry per origin; the observations after the origin are replaced by other numbers
std::vector<Iter> var_reference(const VarCase &c, const sim::World &q, std::string &error, int &origins) {
  std::vector<Iter> r;
  int hMin = c.hor[0], hMax = c.hor.back();
  origins = 0;
  sim::begin(q);
  VarmaSizes *sz = nullptr;
  Varma *mod = nullptr;
  VarmaForecast *fc = nullptr;
  VarmaExtended *em = nullptr;
  VarmaRestriction *rs = nullptr;
  std::vector<double> st, wk, fs, rb;
  auto oo = c.oo;
  auto kill = [&] {
    sim::sut([&] {
      delete fc; delete mod; delete em; delete rs; delete sz;
      fc = nullptr; mod = nullptr; em = nullptr; rs = nullptr; sz = nullptr;
    });
  };
  auto make = [&] {
    return sim::sut([&] {
      sz = new VarmaSizes(c.T, c.m, c.k, c.p, c.D_, c.q, c.P, c.DS, c.Q, c.s);
      if (c.ext) {
        em = new VarmaExtended(*sz, VarmaRestrictionType::kMaFinal, true, true, true, hMax, nullptr, nullptr, &oo);
        st.assign(em->StorageSize + 1, 0);
        wk.assign(em->WorkSize + 1, 0);
      } else {
        mod = new Varma(*sz, true, true, true, &oo);
        fc = new VarmaForecast(*sz, hMax, c.var, false);
        st.assign(mod->Result.StorageSize + 1, 0);
        wk.assign(std::max(mod->Result.WorkSize, fc->WorkSize) + 1, 0);
        fs.assign(fc->StorageSize + 1, 0);
        if (c.restr) {
          rs = new VarmaRestriction(*sz, VarmaRestrictionType::kMaFinal);
          rb.assign(rs->StorageSize + 1, 0);
          rs->Calculate(rb.data());
        }
      }
    });
  };
  auto mk = make();
  if (!mk.ok || c.count >= c.T) {
    error = mk.ok ? "count" : mk.what;
    kill();
    sim::end(false);
    return r;
  }
  bool success = false;
  for (int se = c.count; se > 0; se--) {
    int act = c.T - se - 1;
    if (act < 0) break;
    int eff = std::min(se, hMax);
    if (eff < hMin) break;
    origins++;
    if (!c.prev) kill(), make();
    Iter x;
    std::vector<double> F(c.m * (hMax + 1), NAN), V(c.m * (hMax + 1), NAN);
    auto pd = *c.d, py = *c.y;
    for (int t = act + 1; t < c.T; t++)
      for (int e = 0; e < c.m; e++) pd(t, e) = py(e, t) = 50 + 7.25 * t - 3 * e;
    bool use = c.prev && success;
    auto e = sim::sut([&] {
      if (c.ext) {
        auto dm = pd.m();
        em->Calculate(dm, st.data(), wk.data(), use, eff, se, c.maxcn, 2);
      } else {
        auto ym = py.m();
        Matrix<Tv> xm(c.x->d.data(), c.k, c.T);
        bool rr = c.restr && rs->IsRestricted;
        mod->EstimateMl(ym, c.k ? &xm : nullptr, wk.data(), st.data(), rr ? &rs->R : nullptr, rr && rs->r.Data ? &rs->r : nullptr, se, use, 2, c.maxcn);
        fc->Calculate(*mod, c.k ? &xm : nullptr, &ym, fs.data(), wk.data(), eff);
      }
      auto &f = c.ext ? em->Forecasts : *fc;
      for (int h = 1; h <= eff; h++)
        for (int i = 0; i < c.m; i++) {
          F[h * c.m + i] = f.Forecast.Data[(size_t)(f.StartIndex - 1 + h) * f.Forecast.RowsCount + i];
          if (c.var) V[h * c.m + i] = f.Variance.Data[(size_t)(f.StartIndex - 1 + h) * f.Variance.RowsCount + i];
        }
    });
    success = e.ok;
    if (!e.ok) x.msg = e.what;
    else {
      x.ok = true;
      for (auto t : c.met)
        for (int i = 0; i < c.m; i++) {
          double sum = 0;
          for (int h : c.hor) {
            if (h > eff) continue;
            double l = (*c.y)(i, act), a = (*c.y)(i, act + h), f = F[h * c.m + i], sd = std::sqrt(V[h * c.m + i]), v = 0;
            if (c.lam.size()) l = bc(l, c.lam[i]), a = bc(a, c.lam[i]), f = bc(f, c.lam[i]), sd = bc(sd, c.lam[i]);
            double er = a - f;
            x.det[{se, h, i}] = {l, a, f, er, c.var ? sd : NAN};
            switch (t) {
            case ScoringType::kDirection: v = std::isnan(f) ? NAN : a > l ? f > l : a < l ? f < l : f == l; break;
            case ScoringType::kSign: v = std::isnan(f) ? NAN : a == 0 || f == 0 ? 0.5 : (a > 0) != (f > 0) ? 0 : 1; break;
            case ScoringType::kMae: v = std::fabs(er); break;
            case ScoringType::kMape: v = a <= 0 ? NAN : std::fabs(er) / a; break;
            case ScoringType::kRmse: v = er * er; break;
            case ScoringType::kRmspe: v = a <= 0 ? NAN : er * er / (a * a); break;
            default: v = crps(er, sd);
            }
            if (std::isnan(a) && t != ScoringType::kDirection && t != ScoringType::kSign) v = NAN;
            sum += v;
          }
          x.sums.push_back(sum);
        }
      for (int h : c.hor) x.n += h <= eff;
    }
    r.push_back(x);
  }
  kill();
  sim::end(false);
  return r;
}
} // namespace

SCENARIO("P07", p07_varma_scores, 1) {
  VarCase c = gen_var();
  sim::set_prefix(c.text());
  sim::World w = sim::gen_world(1);
  w.event_budget = 800000000;
  auto q = quiet(w);
  std::string impossible;
  int origins = 0;
  auto ref = var_reference(c, q, impossible, origins);
  bool faulty = sim::chance(0.5), again = sim::chance(0.3);
  bool ma = c.q + c.Q > 0;
  std::vector<int> valid;
  for (int i = 0; i < (int)ref.size(); i++)
    if (ref[i].ok) valid.push_back(i);
  uint64_t calls = 0, allocs = 0;
  for (int round = 0; round < (faulty ? 2 : 1); round++) {
    sim::World wr = w;
    wr.rules.clear();
    wr.oob_fatal = true;
    int kind = -1;
    if (round) gen_fault(wr, kind, calls, allocs);
    uint64_t f0 = round ? sim::fault_fired(kind) : 0;
    VarmaSizes *sz = nullptr;
    VarmaSimulation *o = nullptr;
    VarmaRestriction *rs = nullptr;
    auto oo = c.oo;
    sim::Outcome oc;
    std::vector<double> res;
    int vi = 0;
    std::map<std::string, Ti> errs;
    bool cancel = false;
    std::vector<std::tuple<Ti, Ti, Ti, Ti, Tv, Tv, Tv, Tv, Tv>> det;
    sim::failed_lapack_reset();
    sim::begin(wr);
    oc = sim::sut([&] {
      sz = new VarmaSizes(c.T, c.m, c.k, c.p, c.D_, c.q, c.P, c.DS, c.Q, c.s);
      if (c.restr) rs = new VarmaRestriction(*sz, VarmaRestrictionType::kMaFinal);
      o = new VarmaSimulation(*sz, c.count, c.hor, c.met, &oo, c.ext, VarmaRestrictionType::kMaFinal, true, nullptr, nullptr);
    });
    if (oc.ok) {
      auto *st = (double *)sim::arena_new(o->StorageSize * 8, w.fill, 3, "storage"), *wk = (double *)sim::arena_new(o->WorkSize * 8, w.fill, 4, "work");
      auto *rb = (double *)sim::arena_new((c.restr ? rs->StorageSize : 0) * 8, w.fill, 5, "restrictions");
      sim::protect(c.d->d.data(), c.d->d.size() * 8, "data");
      sim::protect(c.y->d.data(), c.y->d.size() * 8, "data");
      sim::protect(c.x->d.data(), c.x->d.size() * 8, "exogenous data");
      for (int rep = 0; rep < (round == 0 && again ? 2 : 1); rep++) oc = sim::sut([&] {
        if (c.ext) {
          auto dm = c.d->m();
          o->KeepDetails = true;
          o->CalculateE(st, wk, dm, c.maxcn, 2, false, c.prev, c.lam.size() ? &c.lam : nullptr);
        } else {
          auto ym = c.y->m();
          Matrix<Tv> xm(c.x->d.data(), c.k, c.T);
          bool rr = c.restr && rs->IsRestricted;
          if (c.restr) rs->Calculate(rb);
          o->Calculate(st, wk, ym, cancel, c.k ? &xm : nullptr, rr ? &rs->R : nullptr, rr && rs->r.Data ? &rs->r : nullptr, c.prev, c.maxcn, 2, false, c.maxinv, c.lam.size() ? &c.lam : nullptr);
        }
      });
      sim::unprotect_all();
      if (oc.ok) {
        res.assign(o->ResultAggs.Data, o->ResultAggs.Data + o->ResultAggs.length());
        vi = o->ValidCounts;
        errs = o->Errors;
        det = o->Details;
      }
      sim::arena_free(st);
      sim::arena_free(wk);
      sim::arena_free(rb);
    }
    sim::sut([&] { delete o; delete rs; delete sz; });
    calls = sim::fault_seen(sim::F_LAPACK);
    allocs = sim::fault_seen(sim::F_ALLOC);
    sim::end(false);
    bool fired = round && sim::fault_fired(kind) > f0;
    std::string ctx = c.text() + (round ? kind == sim::F_LAPACK ? " with failing library routines" : " with failing memory requests" : "");
    sim::describe("%s", ctx.c_str());
    sim::observe(oc.ok);
    for (double d : res) sim::observe_d(d);
    if (!impossible.empty()) {
      if (oc.ok) sim::violate("impossible", "%s: succeeds although it is not possible (%s)", ctx.c_str(), impossible.c_str());
      continue;
    }
    int nv = (int)valid.size();
    if (!oc.ok) {
      // an evaluation that has no origin at all may be refused; the limit counts the requested evaluations
      bool must = !c.ext && (nv == 0 || c.count - nv > c.maxinv);
      if (!fired && !must) sim::violate("failed", "%s: %d of %d origins are valid, but the evaluation fails: %s", ctx.c_str(), nv, origins, oc.what.c_str());
      if (fired && kind == sim::F_LAPACK && c.maxinv >= c.count && oc.what.find("minimum valid") == std::string::npos) sim::violate("failed", "%s: a failing origin ends the evaluation: %s", ctx.c_str(), oc.what.c_str());
      sim::probe("evaluation fails");
      sim::nontrivial();
      continue;
    }
    long ne = 0;
    for (auto &p : errs) ne += p.second;
    if (!c.ext && c.count - vi > c.maxinv) sim::violate("too-few-valid", "%s: only %d of %d evaluations are valid, a score is reported", ctx.c_str(), vi, c.count);
    if (vi + ne != origins) sim::violate("conservation", "%s: %d valid and %ld failed of %d origins: %s", ctx.c_str(), vi, ne, origins, histogram(errs).c_str());
    if (fired ? vi > nv && !ma : vi != nv) sim::violate("wrong-count", "%s: %d origins are counted as valid, %d are", ctx.c_str(), vi, nv);
    if (!fired) {
      std::map<std::string, Ti> e2;
      for (auto &x : ref)
        if (!x.ok) e2[x.msg]++;
      if (e2 != errs) sim::violate("wrong-message", "%s: failures are %s, listed are %s", ctx.c_str(), histogram(e2).c_str(), histogram(errs).c_str());
    }
    std::string first;
    auto good = [&](const std::vector<int> &s) {
      double n = 0;
      for (int t : s) n += ref[t].n;
      for (size_t i = 0; i < c.met.size(); i++)
        for (int e = 0; e < c.m; e++) {
          double sum = 0;
          for (int t : s) sum += ref[t].sums[i * c.m + e];
          double v = finish(c.met[i], sum, n), got = res[e * c.met.size() + i];
          if (s.empty() ? !std::isfinite(got) : near(got, v, 1e-8)) continue;
          char b[200];
          snprintf(b, sizeof b, "score %d of variable %d is %.17g, the valid origins give %.17g", (int)c.met[i], e, got, v);
          first = b;
          return false;
        }
      return true;
    };
    if (c.ext && !(fired && ma)) { // every number that a score was made of
      size_t rows = 0;
      for (auto &x : ref)
        if (x.ok) rows += (size_t)x.n * c.m * c.met.size();
      if (!fired && det.size() != rows) sim::violate("wrong-details", "%s: %zu details are kept, %zu forecasts were made", ctx.c_str(), det.size(), rows);
      std::map<std::array<int, 3>, std::array<double, 5>> all;
      for (auto &x : ref) all.insert(x.det.begin(), x.det.end());
      for (auto &t : det) {
        auto f = all.find({std::get<0>(t), std::get<2>(t), std::get<3>(t)});
        if (f == all.end()) sim::violate("wrong-details", "%s: details of origin %d, horizon %d, variable %d, which was not evaluated", ctx.c_str(), std::get<0>(t), std::get<2>(t), std::get<3>(t));
        double g[5] = {std::get<4>(t), std::get<5>(t), std::get<6>(t), std::get<7>(t), std::get<8>(t)};
        static const char *nm[] = {"last value", "actual value", "prediction", "error", "standard deviation"};
        for (int i = 0; i < 5; i++)
          if (!near(g[i], f->second[i], 1e-8)) sim::violate("wrong-details", "%s: origin %d, horizon %d, variable %d: the %s is %.17g, expected %.17g", ctx.c_str(), f->first[0], f->first[1], f->first[2], nm[i], g[i], f->second[i]);
      }
    }
    // a fault inside an optimisation may move its end, so only the counts are compared then
    if (fired && ma) sim::probe("failed inside an iterative estimation");
    else if (fired ? !some_subset(valid, vi, good) : !good(valid)) sim::violate("wrong-score", "%s: %s (%d of %d valid; %s)", ctx.c_str(), first.c_str(), vi, origins, sim::failed_lapack());
    if (origins) sim::nontrivial();
    if (vi < origins) sim::probe("some origins fail");
    if (vi < nv) sim::probe("origins fail by an injected fault");
    uint64_t pat = 1;
    for (auto &x : ref) pat = pat * 2 + x.ok;
    sim::state_key((pat * 64 + (nv - vi)) * 64 + c.met.size() * 8 + c.ext * 4 + c.prev * 2 + ma + (uint64_t)(kind + 1) * 1000003);
  }
}

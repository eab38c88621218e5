// Catalogue of library operations on generated inputs. Each Op owns its inputs (several data
// variants), builds its library object inside the simulated world, declares the buffers the object
// asks for, runs, and reports its outputs as labelled numbers for bitwise comparison.
#pragma once
#include "ldt_all.h"
#include "clustering.h"
#include "polynomial.h"
#include "rt.h"
#include <cmath>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace ops {
using namespace ldt;
using sim::Rng;

struct Out {
  std::vector<std::pair<std::string, std::vector<double>>> v;
  void add(const std::string &n, double d) { v.push_back({n, {d}}); }
  void add(const std::string &n, const double *p, size_t len) { v.push_back({n, std::vector<double>(p, p + len)}); }
  void add(const std::string &n, const Matrix<Tv> &m) {
    if (!m.Data) { v.push_back({n + ".null", {}}); return; }
    std::vector<double> x(m.Data, m.Data + m.length());
    x.push_back(m.RowsCount);
    x.push_back(m.ColsCount);
    v.push_back({n, x});
  }
  void addi(const std::string &n, const Matrix<Ti> &m) {
    std::vector<double> x(m.Data, m.Data + m.length());
    v.push_back({n, x});
  }
  template <class T> void addv(const std::string &n, const std::vector<T> &m) {
    v.push_back({n, std::vector<double>(m.begin(), m.end())});
  }
  void adds(const std::string &n, const std::string &s) { v.push_back({n + "=" + s, {}}); }
};
inline bool same_bits(double a, double b) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  return memcmp(&a, &b, sizeof a) == 0 || a == b;
}
// "" if equal, else a description of the first difference
inline std::string diff(const Out &a, const Out &b, double rtol = 0, bool missing_ok = false) {
  char buf[300];
  if (a.v.size() != b.v.size()) return "different number of outputs";
  for (size_t i = 0; i < a.v.size(); i++) {
    if (a.v[i].first != b.v[i].first) return "output '" + a.v[i].first + "' against '" + b.v[i].first + "'";
    auto &x = a.v[i].second, &y = b.v[i].second;
    if (x.size() != y.size()) return "output '" + a.v[i].first + "' has a different size";
    for (size_t j = 0; j < x.size(); j++) {
      if (same_bits(x[j], y[j])) continue;
      if (missing_ok && std::isnan(x[j])) continue;
      if (rtol > 0 && std::fabs(x[j] - y[j]) <= rtol * (1 + std::max(std::fabs(x[j]), std::fabs(y[j])))) continue;
      snprintf(buf, sizeof buf, "%s[%zu]: %.17g against %.17g", a.v[i].first.c_str(), j, x[j], y[j]);
      return buf;
    }
  }
  return "";
}
inline bool all_finite(const Out &a) {
  for (auto &p : a.v)
    for (double d : p.second)
      if (!std::isfinite(d)) return false;
  return true;
}

// ------------------------------------------------------------------ data
struct Arr { // harness-owned column-major matrix
  std::vector<double> d;
  int r = 0, c = 0;
  Arr() {}
  Arr(int r_, int c_, double v = 0) : d((size_t)std::max(1, r_ * c_), v), r(r_), c(c_) {}
  double &operator()(int i, int j) { return d[(size_t)j * r + i]; }
  double operator()(int i, int j) const { return d[(size_t)j * r + i]; }
  Matrix<Tv> m() const { return Matrix<Tv>(const_cast<double *>(d.data()), r, c); }
  Arr t() const {
    Arr o(c, r);
    for (int i = 0; i < r; i++)
      for (int j = 0; j < c; j++) o(j, i) = (*this)(i, j);
    return o;
  }
};
typedef std::shared_ptr<Arr> PA;
inline PA randn(Rng &g, int r, int c) {
  auto a = std::make_shared<Arr>(r, c);
  for (auto &x : a->d) x = g.normal();
  return a;
}
inline PA randpos(Rng &g, int r, int c) {
  auto a = std::make_shared<Arr>(r, c);
  for (auto &x : a->d) x = 0.3 + g.real() * 2;
  return a;
}
// a regression system: columns [Y (m) | X (k, first one an intercept)]
inline PA regdata(Rng &g, int N, int m, int k, bool intercept = true) {
  auto a = std::make_shared<Arr>(N, m + k);
  for (int i = 0; i < N; i++)
    for (int j = 0; j < k; j++) (*a)(i, m + j) = (j == 0 && intercept) ? 1.0 : g.normal();
  std::vector<double> b(m * k);
  for (auto &x : b) x = g.normal();
  for (int e = 0; e < m; e++)
    for (int i = 0; i < N; i++) {
      double s = g.normal() * 0.7;
      for (int j = 0; j < k; j++) s += b[e * k + j] * (*a)(i, m + j);
      (*a)(i, e) = s;
    }
  return a;
}
inline void break_data(Rng &g, Arr &a, int how, int firstcol) { // 0 NaN, 1 constant column, 2 duplicate column, 3 inf
  int c = firstcol + (int)g.u(std::max(1, a.c - firstcol));
  if (c >= a.c) c = a.c - 1;
  switch (how) {
  case 0: a((int)g.u(a.r), c) = NAN; break;
  case 1: for (int i = 0; i < a.r; i++) a(i, c) = 2; break;
  case 2: {
    int e = a.c > 1 ? (c + 1) % a.c : c;
    for (int i = 0; i < a.r; i++) a(i, c) = a(i, e);
  } break;
  case 3: a((int)g.u(a.r), c) = INFINITY; break;
  default: for (int i = 0; i < a.r; i++) a(i, c) = 0; break;
  }
}
inline PA vardata(Rng &g, int T, int m, int k, bool trend = false) { // T x (m + k)
  auto a = std::make_shared<Arr>(T, m + k);
  for (int j = 0; j < k; j++)
    for (int t = 0; t < T; t++) (*a)(t, m + j) = j == 0 ? 1.0 : g.normal();
  for (int e = 0; e < m; e++) {
    double p = 1;
    double phi = 0.2 + 0.5 * g.real();
    for (int t = 0; t < T; t++) {
      double x = 1 + phi * p + 0.6 * g.normal();
      for (int j = 1; j < k; j++) x += 0.4 * (*a)(t, m + j);
      if (trend) x += 0.02 * t;
      (*a)(t, e) = x;
      p = x;
    }
  }
  return a;
}

struct Ctx {
  std::vector<double *> b;
  std::vector<int *> ib;
};
struct Op {
  std::string name;
  bool seeded = false;   // consumes a seed
  bool sim = false;      // a simulation or search: a fault may fail an iteration or candidate only
  bool optim = false;    // iterative: a numerical fault may legitimately change the path
  bool mutates = false;  // documented to write an argument (private copy here)
  bool writes_all = true;
  bool lapack = false;   // uses the numerical library
  bool allocs = true;
  int omp = 0;           // opens a parallel region
  virtual ~Op() {}
  virtual std::unique_ptr<Op> clone() const = 0;
  virtual void construct() {}
  virtual std::vector<size_t> sizes() { return {}; }
  virtual std::vector<size_t> isizes() { return {}; }
  virtual void calc(int variant, Ctx &c) = 0;
  virtual void collect(Out &o) = 0;
  virtual void destroy() {}
  virtual void inputs(const std::function<void(const void *, size_t, const char *)> &f) {}
  virtual std::string describe() const { return name; }
  // are reported results internally consistent? for iterative estimations whose path a fault may change
  virtual bool has_consistency() { return false; }
  virtual std::string consistent() { return ""; } // before destroy
};
template <class D> struct OpT : Op {
  std::unique_ptr<Op> clone() const override { return std::unique_ptr<Op>(new D(static_cast<const D &>(*this))); }
};
inline void in(const std::function<void(const void *, size_t, const char *)> &f, const PA &a, const char *n) {
  if (a) f(a->d.data(), a->d.size() * sizeof(double), n);
}
typedef std::function<std::unique_ptr<Op>()> Gen;
struct Entry {
  const char *name;
  Gen gen;
  double weight;
};
std::vector<Entry> &catalogue();
struct Reg {
  Reg(const char *name, Gen gen, double weight = 1) { catalogue().push_back({name, gen, weight}); }
};
std::unique_ptr<Op> draw(const std::function<bool(const Entry &)> &f = {}); // one op by weight
std::unique_ptr<Op> draw_named(const char *name);                           // a specific one
#define OP(T, w)                                                                                   \
  static ops::Reg reg_##T(#T, []() -> std::unique_ptr<ops::Op> {                                   \
    std::unique_ptr<T> p(new T());                                                                 \
    p->name = #T;                                                                                  \
    sim::Rng g(sim::chseed());                                                                     \
    p->gen(g);                                                                                     \
    return p;                                                                                      \
  }, w)

// an object of the library owned by an op; a clone starts without it
template <class T> struct Own {
  T *p = nullptr;
  Own() {}
  Own(const Own &) {}
  Own &operator=(const Own &) { return *this; }
  ~Own() {}
  template <class... A> void make(A &&...a) { p = new T(std::forward<A>(a)...); }
  void take(T *q) { p = q; }
  void kill() {
    delete p;
    p = nullptr;
  }
  T *operator->() { return p; }
  T &operator*() { return *p; }
};

// ------------------------------------------------------------------ running
struct Buffers {
  std::vector<double *> b;
  std::vector<int *> ib;
  std::vector<size_t> nb, ni;
};
inline Buffers buffers_new(Op &op, int fill, uint64_t seed) {
  Buffers B;
  int i = 0;
  for (size_t n : op.sizes()) {
    char nm[80];
    snprintf(nm, sizeof nm, "%s buffer %d (%zu)", op.name.c_str(), i++, n);
    B.nb.push_back(n);
    B.b.push_back((double *)sim::arena_new(n * sizeof(double), fill, seed + i, nm));
  }
  for (size_t n : op.isizes()) {
    char nm[80];
    snprintf(nm, sizeof nm, "%s int buffer %d (%zu)", op.name.c_str(), i++, n);
    B.ni.push_back(n);
    B.ib.push_back((int *)sim::arena_new(n * sizeof(int), fill, seed + i, nm));
  }
  return B;
}
inline void buffers_refill(Buffers &B, int fill, uint64_t seed) {
  for (size_t i = 0; i < B.b.size(); i++) sim::fill_bytes(B.b[i], B.nb[i] * sizeof(double), fill, seed + i);
  for (size_t i = 0; i < B.ib.size(); i++) sim::fill_bytes(B.ib[i], B.ni[i] * sizeof(int), fill, seed + 100 + i);
}
inline void buffers_free(Buffers &B) {
  for (auto p : B.b) sim::arena_free(p);
  for (auto p : B.ib) sim::arena_free(p);
  B = Buffers();
}
struct RunResult {
  sim::Outcome o;
  Out out;
  std::string cons; // an inconsistency inside the result
  bool constructed = false;
};
// one complete life: construct, calculate variant, collect, destroy (inside an open world)
inline RunResult life(Op &op, int variant, int fill, uint64_t fseed) {
  RunResult r;
  r.o = sim::sut([&] { op.construct(); });
  if (!r.o.ok) {
    sim::sut([&] { op.destroy(); });
    return r;
  }
  r.constructed = true;
  Buffers B = buffers_new(op, fill, fseed);
  op.inputs([](const void *p, size_t n, const char *nm) { sim::protect(p, n, nm); });
  Ctx c{B.b, B.ib};
  r.o = sim::sut([&] { op.calc(variant, c); });
  if (r.o.ok) {
    op.collect(r.out);
    if (op.has_consistency()) r.cons = op.consistent();
  }
  sim::sut([&] { op.destroy(); });
  buffers_free(B);
  sim::unprotect_all();
  return r;
}
} // namespace ops

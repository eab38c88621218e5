// Link-time wraps of the BLAS/LAPACK entry points used by the library: memory ranges
// become events (bounds, races, input protection) and routines that can fail may be
// told to fail. Compiled WITHOUT instrumentation.
#include "rt.h"
#include "rt_int.h"
#include <cmath>
#include <cstring>
#include <algorithm>
using namespace sim;
namespace sim {
// which routine failed last (for messages)
char g_last_lapack[32] = "";
int g_lapack_depth = 0;
char g_all_lapack[400] = "";
const char *last_lapack() { return g_last_lapack; }
const char *failed_lapack() { return g_all_lapack; }
void failed_lapack_reset() { g_all_lapack[0] = 0; }
}
static bool on() { return sut_flag() && world_active(); }
static size_t mat(int rows, int cols, int ld) { return rows <= 0 || cols <= 0 ? 0 : ((size_t)ld * (cols - 1) + rows) * 8; }
#define R(p, n) range_access(p, n, false, __func__ + 7)
#define Wr(p, n) range_access(p, n, true, __func__ + 7)
namespace sim { __attribute__((noinline)) void fault_note() { asm volatile(""); } } // a place for breakpoints
// is this routine's failure injected now? fills output with junk that is finite and wrong
static bool inject(const char *nm, double *out, int rows, int cols, int ld, int *info, int val) {
  if (!fault(F_LAPACK)) return false;
  sim::fault_note();
  snprintf(g_last_lapack, sizeof g_last_lapack, "%s", nm);
  if (!strstr(g_all_lapack, nm) && strlen(g_all_lapack) + strlen(nm) + 2 < sizeof g_all_lapack) strcat(strcat(g_all_lapack, nm), " ");
  probe((std::string("lapack_fail:") + nm).c_str());
  for (int j = 0; j < cols; j++)
    for (int i = 0; i < rows; i++) out[(size_t)j * ld + i] = 7.25e3 + 13.5 * i - 3.125 * j;
  *info = val;
  return true;
}
extern "C" {
void __real_dcopy_(int *, double *, int *, double *, int *);
double __real_ddot_(int *, double *, int *, double *, int *);
void __real_dgemv_(const char *, const int *, const int *, const double *, const double *, const int *, const double *, const int *, const double *, double *, const int *);
void __real_dgemm_(const char *, const char *, const int *, const int *, const int *, const double *, const double *, const int *, const double *, const int *, const double *, double *, const int *);
void __real_dsyrk_(const char *, const char *, const int *, const int *, const double *, const double *, const int *, const double *, double *, const int *);
void __real_dsymm_(const char *, const char *, const int *, const int *, const double *, const double *, const int *, const double *, const int *, const double *, double *, const int *);
double __real_dlange_(const char *, const int *, const int *, const double *, const int *, double *);
void __real_dpotrf2_(const char *, const int *, double *, const int *, int *);
void __real_dtrtrs_(const char *, const char *, const char *, const int *, const int *, const double *, const int *, double *, const int *, int *);
void __real_dposv_(const char *, const int *, const int *, double *, const int *, double *, const int *, int *);
void __real_dgesvd_(const char *, const char *, const int *, const int *, double *, const int *, double *, double *, const int *, double *, const int *, double *, const int *, int *);
void __real_dgetri_(const int *, double *, const int *, const int *, double *, const int *, int *);
void __real_dgetrf_(const int *, const int *, double *, const int *, int *, int *);
void __real_dgeqrf_(const int *, const int *, double *, const int *, double *, double *, const int *, int *);

static size_t vec(int n, int inc) { return n <= 0 ? 0 : (size_t)(1 + (size_t)(n - 1) * (inc < 0 ? -inc : inc)) * 8; }
int __wrap_dcopy_(int *n, double *x, int *ix, double *y, int *iy) {
  if (on()) R(x, vec(*n, *ix)), Wr(y, vec(*n, *iy));
  __real_dcopy_(n, x, ix, y, iy);
  return 0;
}
double __wrap_ddot_(int *n, double *x, int *ix, double *y, int *iy) {
  if (on()) R(x, vec(*n, *ix)), R(y, vec(*n, *iy));
  return __real_ddot_(n, x, ix, y, iy);
}
static bool tr(const char *t) { return *t != 'N' && *t != 'n'; }
int __wrap_dgemv_(const char *t, const int *m, const int *n, const double *a, const double *A, const int *lda, const double *x, const int *ix, const double *b, double *y, const int *iy) {
  if (on()) R(A, mat(*m, *n, *lda)), R(x, vec(tr(t) ? *m : *n, *ix)), Wr(y, vec(tr(t) ? *n : *m, *iy));
  __real_dgemv_(t, m, n, a, A, lda, x, ix, b, y, iy);
  return 0;
}
int __wrap_dgemm_(const char *ta, const char *tb, const int *m, const int *n, const int *k, const double *a, const double *A, const int *lda, const double *B, const int *ldb, const double *b, double *C, const int *ldc) {
  if (on()) R(A, tr(ta) ? mat(*k, *m, *lda) : mat(*m, *k, *lda)), R(B, tr(tb) ? mat(*n, *k, *ldb) : mat(*k, *n, *ldb)), Wr(C, mat(*m, *n, *ldc));
  __real_dgemm_(ta, tb, m, n, k, a, A, lda, B, ldb, b, C, ldc);
  return 0;
}
int __wrap_dsyrk_(const char *u, const char *t, const int *n, const int *k, const double *a, const double *A, const int *lda, const double *b, double *C, const int *ldc) {
  if (on()) R(A, tr(t) ? mat(*k, *n, *lda) : mat(*n, *k, *lda)), Wr(C, mat(*n, *n, *ldc));
  __real_dsyrk_(u, t, n, k, a, A, lda, b, C, ldc);
  return 0;
}
int __wrap_dsymm_(const char *s, const char *u, const int *m, const int *n, const double *a, const double *A, const int *lda, const double *B, const int *ldb, const double *b, double *C, const int *ldc) {
  int na = (*s == 'L' || *s == 'l') ? *m : *n;
  if (on()) R(A, mat(na, na, *lda)), R(B, mat(*m, *n, *ldb)), Wr(C, mat(*m, *n, *ldc));
  __real_dsymm_(s, u, m, n, a, A, lda, B, ldb, b, C, ldc);
  return 0;
}
double __wrap_dlange_(const char *norm, const int *m, const int *n, const double *A, const int *lda, double *w) {
  if (on()) {
    R(A, mat(*m, *n, *lda));
    if (*norm == 'I' || *norm == 'i') Wr(w, vec(*m, 1));
  }
  return __real_dlange_(norm, m, n, A, lda, w);
}
void __wrap_dpotrf2_(const char *u, const int *n, double *A, const int *lda, int *info) {
  if (on()) {
    Wr(A, mat(*n, *n, *lda));
    if (inject("dpotrf2", A, *n, *n, *lda, info, 1)) return;
  }
  __real_dpotrf2_(u, n, A, lda, info);
}
void __wrap_dtrtrs_(const char *u, const char *t, const char *d, const int *n, const int *nr, const double *A, const int *lda, double *B, const int *ldb, int *info) {
  if (on()) {
    R(A, mat(*n, *n, *lda)), Wr(B, mat(*n, *nr, *ldb));
    if (inject("dtrtrs", B, 0, 0, *ldb, info, 1)) return;
  }
  __real_dtrtrs_(u, t, d, n, nr, A, lda, B, ldb, info);
}
void __wrap_dposv_(const char *u, const int *n, const int *nr, double *A, const int *lda, double *B, const int *ldb, int *info) {
  if (on()) {
    Wr(A, mat(*n, *n, *lda)), Wr(B, mat(*n, *nr, *ldb));
    if (inject("dposv", A, *n, *n, *lda, info, 1)) return;
  }
  __real_dposv_(u, n, nr, A, lda, B, ldb, info);
}
void __wrap_dgesvd_(const char *ju, const char *jv, const int *m, const int *n, double *A, const int *lda, double *S, double *U, const int *ldu, double *V, const int *ldv, double *w, const int *lw, int *info) {
  if (on()) {
    int mn = std::min(*m, *n);
    if (*lw == -1) Wr(w, 8);
    else {
      Wr(A, mat(*m, *n, *lda)), Wr(S, vec(mn, 1)), Wr(w, vec(*lw, 1));
      if (*ju == 'A') Wr(U, mat(*m, *m, *ldu));
      if (*ju == 'S') Wr(U, mat(*m, mn, *ldu));
      if (*jv == 'A') Wr(V, mat(*n, *n, *ldv));
      if (*jv == 'S') Wr(V, mat(mn, *n, *ldv));
      if (inject("dgesvd", S, mn, 1, mn, info, 1)) return;
    }
  }
  __real_dgesvd_(ju, jv, m, n, A, lda, S, U, ldu, V, ldv, w, lw, info);
}
void __wrap_dgetri_(const int *n, double *A, const int *lda, const int *piv, double *w, const int *lw, int *info) {
  if (on()) {
    if (*lw == -1) Wr(w, 8);
    else {
      Wr(A, mat(*n, *n, *lda)), Wr(w, vec(*lw, 1));
      range_access(piv, (size_t)std::max(0, *n) * 4, false, "dgetri_");
      if (inject("dgetri", A, *n, *n, *lda, info, 1)) return;
    }
  }
  __real_dgetri_(n, A, lda, piv, w, lw, info);
}
void __wrap_dgetrf_(const int *m, const int *n, double *A, const int *lda, int *piv, int *info) {
  if (on()) {
    Wr(A, mat(*m, *n, *lda));
    range_access(piv, (size_t)std::max(0, std::min(*m, *n)) * 4, true, "dgetrf_");
    if (fault(F_LAPACK)) { // exactly singular: the factorisation is complete but U has a zero pivot
      snprintf(g_last_lapack, sizeof g_last_lapack, "dgetrf");
      probe("lapack_fail:dgetrf");
      __real_dgetrf_(m, n, A, lda, piv, info);
      *info = std::max(1, std::min(*m, *n));
      return;
    }
  }
  __real_dgetrf_(m, n, A, lda, piv, info);
}
void __wrap_dgeqrf_(const int *m, const int *n, double *A, const int *lda, double *tau, double *w, const int *lw, int *info) {
  if (on()) {
    if (*lw == -1) Wr(w, 8);
    else Wr(A, mat(*m, *n, *lda)), Wr(tau, vec(std::min(*m, *n), 1)), Wr(w, vec(*lw, 1));
  }
  __real_dgeqrf_(m, n, A, lda, tau, w, lw, info);
}
void xerbla_(const char *name, const int *info, size_t len) {
  char b[16];
  size_t n = len && len < 15 ? len : 6;
  memcpy(b, name, n);
  b[n] = 0;
  violate("numerical-library-misuse", "routine %s called with an illegal argument number %d", b, *info);
}
}

// Estimation and statistics calls of the R session (P18): the package's own R code and entry points in the embedded R.
// Every call is made undisturbed, under collections, without memory, with failing library routines, with warnings turned
// into errors, and again; what it returns may depend on its arguments only.
#define STRICT_R_HEADERS
#include "rt.h"
#include "s_r.h"
#include "clustering.h"
#include "distributions.h"
#include "optimization.h"
#include "pca.h"
#include "running.h"
#include "scoring.h"
#include <cstring>
#include <malloc.h>
using namespace sim;
using namespace Rcpp;
extern SEXP ldt_env(); // the environment of the package's functions
extern "C" void __libc_free(void *);
static bool g_poison = false;
extern "C" void free(void *p) { // what the collector frees does not stay readable
  if (g_poison && p) memset(p, 0x5b, malloc_usable_size(p));
  __libc_free(p);
}

static const char *CODE = R"R(
.r <- new.env()
.r$mk <- function(kind, seed, u) {
  set.seed(seed)
  int <- function(i, a, b) a + floor(u[i] * (b - a + 1))
  p <- function(i, pr) u[i] > 1 - pr
  one <- function(i, v) v[[int(i, 1, length(v))]]
  I <- function(i, m) { if (p(i, 0.7)) storage.mode(m) <- "integer"; m }
  pca <- function(i, k) if (p(i, 0.25)) get.options.pca(ignoreFirst = int(i + 1, 0, 1), exactCount = int(i + 2, 0, k), cutoffRate = 0.5 + 0.45 * u[i + 3], max = int(i + 4, 1, 5))
  n <- int(1, 12, 40); k <- int(2, 1, 4)
  X <- matrix(rnorm(n * k), n)
  if (p(3, 0.2) && k > 1) X[, k] <- X[, 1] + if (u[3] > 0.9) 0 else rnorm(n) * 1e-7
  colnames(X) <- paste0("X", 1:k)
  roc <- function(i, n) {
    cst <- if (p(i, 0.4)) I(i + 1, matrix(floor(runif(n, 1, 5)), ncol = 1))
    if (!is.null(cst)) cst <- as.vector(cst)
    lo <- if (p(i + 2, 0.3)) 0.3 * u[i + 3] else 0
    get.options.roc(lowerThreshold = lo, upperThreshold = if (p(i + 4, 0.3)) 0.5 + 0.4 * u[i + 5] else 1, epsilon = if (p(i + 6, 0.3)) 0.1 else 1e-12,
      pessimistic = p(i + 7, 0.4), costs = cst, costMatrix = if (!is.null(cst)) I(i + 8, matrix(c(floor(runif(1, 1, 4)), -floor(runif(1, 0, 3)), if (p(i + 9, 0.2)) 9 else 0, floor(runif(1, 0, 3))), 2)))
  }
  new <- function(i) if (p(i, 0.4)) { N <- matrix(rnorm(k * int(i + 1, 1, 3)), ncol = k); colnames(N) <- colnames(X); N }
  if (kind == 0) {
    m <- int(4, 1, 3)
    Y <- matrix(rnorm(n * m), n) + X[, 1] %o% rep(c(0.8, -0.5, 0.3), length.out = m) + 6
    colnames(Y) <- paste0("V", 1:m)
    if (p(5, 0.3)) Y[int(6, 3, n), 1] <- NA
    icept <- p(7, 0.7)
    d <- get.data(cbind(Y, X), endogenous = m, newData = new(8), lambdas = if (p(10, 0.2) && !anyNA(Y)) 0.5 + u[11], addIntercept = icept)
    K <- m * (k + icept)
    sig <- if (p(12, 0.25)) int(13, 1, 3) else 0
    R <- if (sig == 0 && p(14, 0.4) && K > 1) I(15, diag(K)[, sort(sample(K, int(16, 1, K - 1))), drop = FALSE])
    list(f = "estim.sur", a = list(data = d, searchSigMaxIter = sig, searchSigMaxProb = 0.05 + 0.5 * u[17], restriction = R, pcaOptionsY = pca(18, m), pcaOptionsX = pca(23, k),
      simFixSize = if (p(28, 0.5)) int(29, 1, 6) else 0, simTrainFixSize = if (p(30, 0.3)) int(31, 5, n - 2) else 0, simTrainRatio = 0.6 + 0.3 * u[32], simSeed = 1 + int(33, 0, 1000),
      simMaxConditionNumber = if (p(34, 0.2)) 10 + 1000 * u[35] else Inf))
  } else if (kind == 1) {
    Y <- matrix(as.numeric(X[, 1] + rnorm(n) > 0.2), ncol = 1, dimnames = list(NULL, "V")); Y[1, 1] <- 0; Y[2, 1] <- 1
    w <- p(4, 0.3)
    d <- get.data(cbind(Y, X), endogenous = 1, weights = if (w) runif(n, 0.5, 2), newData = new(8), addIntercept = TRUE)
    cm <- if (p(5, 0.5)) lapply(seq_len(int(6, 1, 2)), function(j) I(7, matrix(c(0, 1, floor(runif(4, 0, 5))), 2)))
    list(f = "estim.bin", a = list(data = d, linkFunc = one(10, list("logit", "probit")), pcaOptionsX = pca(11, k), costMatrices = cm, aucOptions = roc(16, n),
      optimOptions = get.options.newton(maxIterations = int(25, 1, 100), useLineSearch = !p(26, 0.3)), simFixSize = if (p(28, 0.5)) int(29, 1, 6) else 0,
      simTrainFixSize = if (p(30, 0.3)) int(31, 6, n - 2) else 0, simTrainRatio = 0.6 + 0.3 * u[32], simSeed = 1 + int(33, 0, 1000), weightedEval = w && p(34, 0.5)))
  } else if (kind == 2) {
    m <- int(4, 1, 2); n <- max(n, 18); k <- int(2, 1, 2)
    X <- matrix(rnorm(n * k), n, dimnames = list(NULL, paste0("X", 1:k)))
    Y <- apply(matrix(rnorm(n * m), n), 2, function(v) as.numeric(stats::filter(v, 0.5, "recursive")) + 6)
    Y <- matrix(Y, n, dimnames = list(NULL, paste0("V", 1:m)))
    if (p(5, 0.2)) Y[1:2, 1] <- NA
    ex <- p(6, 0.4); icept <- p(7, 0.7)
    h <- if (p(8, 0.6)) int(9, 1, 3) else 0
    nx <- if (ex && h > 0) matrix(rnorm(k * 3), ncol = k, dimnames = list(NULL, colnames(X)))
    d <- get.data(if (ex) cbind(Y, X) else Y, endogenous = m, newData = nx, lambdas = if (p(10, 0.2) && !anyNA(Y)) 0.5 + u[11], addIntercept = icept)
    sn <- if (p(12, 0.2)) 4 else 0
    par <- c(int(13, 0, 2), if (p(14, 0.2)) 1 else 0, if (p(15, 0.25)) 1 else 0, 0, 0, 0)
    if (sn > 0) par[4] <- 1
    if (sum(par[c(1, 3, 4)]) == 0) par[1] <- 1
    list(f = "estim.varma", a = list(data = d, params = par, seasonsCount = sn, olsStdMultiplier = 1 + 2 * u[16], lbfgsOptions = get.options.lbfgs(maxIterations = int(17, 1, 30)),
      pcaOptionsY = if (m > 1) pca(18, m), pcaOptionsX = if (ex) pca(23, k), maxHorizon = h, simFixSize = if (p(28, 0.5) && (h > 0 || p(29, 0.5))) int(29, 1, 4) else 0,
      simHorizons = if (h == 0 || p(30, 0.5)) I(31, seq_len(int(32, 1, 2))), simUsePreviousEstim = p(33, 0.3), simMaxConditionNumber = if (p(34, 0.2)) 10 + 1000 * u[35] else Inf))
  } else if (kind == 3) {
    y <- as.numeric(X[, 1] + rnorm(n) > 0.2); y[1] <- 0; y[2] <- 1
    s <- if (p(4, 0.4)) round(runif(n), 1) else runif(n)
    list(f = "s.roc", a = list(y = if (p(5, 0.3)) as.integer(y) else y, scores = s, weights = if (p(6, 0.4)) floor(runif(n, 1, 4)), options = roc(16, n)))
  } else if (kind == 4) {
    if (p(4, 0.2)) X[, 1] <- 3
    list(f = "s.pca", a = list(x = if (p(5, 0.3)) I(6, round(X * 10)) else X, center = p(7, 0.7), scale = p(8, 0.7), newX = if (p(9, 0.6)) matrix(rnorm(k * int(11, 1, 4)), ncol = k)))
  } else if (kind == 5) {
    if (p(4, 0.2)) X[sample(length(X), 2)] <- NA
    if (p(5, 0.2)) X[, 1] <- 2
    list(f = "s.distance", a = list(data = X, distance = one(6, list("correlation", "absCorrelation", "euclidean", "manhattan", "maximum")), correlation = one(7, list("pearson", "spearman")), checkNan = TRUE))
  } else if (kind == 6) {
    k <- int(2, 2, 9)
    dd <- as.vector(stats::dist(matrix(rnorm(k * 3), k)))
    list(f = "s.cluster.h", a = list(distances = I(4, if (p(5, 0.4)) round(dd * 3) + 1 else dd), linkage = one(6, list("single", "complete", "uAverage", "wAverage", "ward"))))
  } else if (kind == 7) {
    k <- int(2, 2, 6); X <- matrix(rnorm(n * k), n)
    if (p(4, 0.3)) X[, 1] <- 2
    if (p(5, 0.3)) X[, 2] <- X[, 1]
    list(f = "s.cluster.h.group", a = list(data = X, nGroups = int(6, 1, k), threshold = if (p(7, 0.4)) 0.3 * u[8] else 0, distance = one(9, list("correlation", "absCorrelation", "euclidean", "manhattan", "maximum")),
      linkage = one(10, list("single", "complete", "uAverage", "wAverage", "ward")), correlation = one(11, list("pearson", "spearman"))))
  } else if (kind == 8) {
    list(f = "s.gld.from.moments", a = list(mean = rnorm(1), variance = runif(1, 0.2, 3), skewness = if (p(4, 0.5)) rnorm(1) * 0.4 else 0, excessKurtosis = rnorm(1) * 0.5, type = I(5, int(6, 0, 4)),
      start = if (p(7, 0.5)) I(8, c(0, 0)) else NULL, nelderMeadOptions = get.options.neldermead(maxIterations = int(9, 5, 150), tolerance = 1e-6)))
  } else if (kind == 9) {
    pr <- runif(int(4, 1, 40)); if (p(5, 0.3)) pr <- I(6, round(pr))
    list(f = one(7, list("s.gld.quantile", "s.gld.density.quantile")), a = list(pr, rnorm(1), runif(1, 0.5, 2), runif(1, 0, 1), runif(1, 0, 1)))
  } else if (kind == 10) {
    l <- function(i) list(mean = I(i, round(rnorm(1) * 5)), variance = runif(1), skewness = rnorm(1), kurtosis = rnorm(1), count = I(i + 1, int(i + 1, 1, 90)), weight = I(i + 2, int(i + 2, 1, 50)))
    list(f = "s.combine.stats4", a = list(l(4), l(8)))
  } else {
    me <- one(4, list("aic", "sic", "brierIn", "aucIn", "rmse", "mae", "crps", "sign", "direction", "rmspe", "none"))
    list(f = one(5, list("s.weight.from.metric", "s.metric.from.weight")), a = list(value = if (p(6, 0.3)) 1L else runif(1), metricName = me, minValue = I(7, 0)))
  }
}
.r$dbl <- function(x) { # integer numbers as double numbers
  if (is.integer(x)) { storage.mode(x) <- "double"; return(x) }
  if (is.list(x)) for (i in seq_along(x)) if (!is.null(x[[i]])) x[[i]] <- .r$dbl(x[[i]])
  x
}
.r$copy <- function(x) unserialize(serialize(x, NULL))
.r$run <- function(c, strict) {
  ws <- character(0)
  old <- options(warn = if (strict) 2 else 1); on.exit(options(old))
  f <- get(c$f)
  r <- tryCatch(if (strict) list(ok = TRUE, res = do.call(f, c$a), msg = "") else
      withCallingHandlers(list(ok = TRUE, res = do.call(f, c$a), msg = ""), warning = function(w) { ws <<- c(ws, conditionMessage(w)); invokeRestart("muffleWarning") }),
    error = function(e) list(ok = FALSE, res = NULL, msg = conditionMessage(e)))
  r$ws <- paste(ws, collapse = ";")
  r
}
.r$step <- 0L
for (n in ls(environment(.r$mk), all.names = TRUE)) if (grepl("^[.](Get|Estim|Gld|Combine|Cluster)", n)) local({
  f <- get(n)
  assign(n, function(...) {
    if (.r$step == 0L) return(f(...))
    a <- list(...) # (the collector runs inside the entry point only)
    on.exit(gctorture2(0L))
    gctorture2(.r$step, .r$wait)
    do.call(f, a)
  }, envir = environment(.r$mk))
})
.r$core <- function(r, sim) { # what iterations that fail for lack of memory may not change
  r$info <- NULL
  if (sim) { r$simulation <- NULL; if (!is.null(r$metrics)) r$metrics <- r$metrics[!(rownames(r$metrics) %in% c("mae", "mape", "rmse", "rmspe", "crps", "sign", "direction", "brierOut", "aucOut", "frequencyCostOut")), , drop = FALSE] }
  r
}
.r$diff <- function(a, b, noinfo, sim) {
  if (noinfo || sim) { if (is.list(a)) a <- .r$core(a, sim); if (is.list(b)) b <- .r$core(b, sim) }
  if (identical(a, b)) return("")
  w <- function(a, b, p) {
    if (identical(a, b)) return(NULL)
    if (is.list(a) && is.list(b) && length(a) == length(b) && identical(names(a), names(b)))
      for (i in seq_along(a)) {
        r <- w(a[[i]], b[[i]], paste0(p, "$", if (is.null(names(a))) i else names(a)[i]))
        if (!is.null(r)) return(r)
      }
    paste0(p, ": ", paste(utils::head(deparse(a), 3), collapse = " "), " / ", paste(utils::head(deparse(b), 3), collapse = " "))
  }
  w(a, b, "result")
}
)R";
void est_init() {
  SEXP E = ldt_env();
  ParseStatus st;
  SEXP txt = PROTECT(Rf_mkString(CODE));
  SEXP ex = PROTECT(R_ParseVector(txt, -1, &st, R_NilValue));
  int err = st != PARSE_OK;
  for (int i = 0; !err && i < Rf_length(ex); i++) R_tryEval(VECTOR_ELT(ex, i), E, &err);
  UNPROTECT(2);
  if (err) fprintf(stderr, "R: the code of P18 cannot be loaded\n"), exit(2);
}

namespace {
struct Res { bool ok = false; SEXP res = R_NilValue; std::string msg, ws; };
SEXP fn(const char *name) {
  Environment h = Environment(ldt_env())[".r"];
  return h.get(name);
}
SEXP eval(SEXP lang, const char *what) { // harness code in R
  int err = 0;
  PROTECT(lang);
  SEXP r = R_tryEvalSilent(lang, ldt_env(), &err);
  UNPROTECT(1);
  if (err) {
    std::string m = R_curErrorBuf();
    if (!strcmp(what, "arguments")) discard(("arguments: " + m).c_str());
    violate("session", "%s: the R session cannot go on: %s", what, m.c_str());
  }
  return r;
}
Res call(SEXP c, bool strict) {
  Res r;
  SEXP l = PROTECT(Rf_lang3(PROTECT(fn("run")), c, PROTECT(Rf_ScalarLogical(strict))));
  SEXP res = R_NilValue;
  int err = 0;
  Outcome q = sut([&] { res = R_tryEvalSilent(l, ldt_env(), &err); });
  if (!q.ok) violate("escaped", "an exception enters the R session: %s %s", q.kind.c_str(), q.what.c_str());
  if (err) violate("session", "the call broke the R session: %s", R_curErrorBuf());
  R_PreserveObject(res);
  List L(res);
  r.ok = as<bool>(L["ok"]);
  r.msg = as<std::string>(L["msg"]);
  r.ws = as<std::string>(L["ws"]);
  r.res = L["res"];
  UNPROTECT(3);
  return r;
}
std::string diff(SEXP a, SEXP b, bool noinfo, bool simul) {
  SEXP x = PROTECT(Rf_ScalarLogical(noinfo)), y = PROTECT(Rf_ScalarLogical(simul)), f = PROTECT(fn("diff"));
  SEXP l = PROTECT(Rf_lang5(f, a, b, x, y));
  SEXP r = PROTECT(eval(l, "comparison"));
  std::string s = as<std::string>(r);
  UNPROTECT(5);
  return s;
}
void inside(int step, int wait) { // collections inside the entry points
  Environment h = Environment(ldt_env())[".r"];
  h["step"] = step, h["wait"] = wait;
  g_poison = step != 0;
  if (step) fault_mark(F_GC);
}
NumericVector num(SEXP x) { return as<NumericVector>(x); }
bool eq(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
void same(SEXP got, const double *want, size_t n, const char *what) {
  NumericVector g = num(got);
  if ((size_t)g.size() != n) violate("other-result", "%s has %d values instead of %zu", what, (int)g.size(), n);
  for (size_t i = 0; i < n; i++)
    if (!eq(g[i], want[i])) violate("other-result", "%s: value %zu is %.17g, the library gives %.17g", what, i + 1, (double)g[i], want[i]);
}
// the same calculation by the library itself, without R
void direct(const std::string &f, List a, SEXP res) {
  using ldt::Matrix;
  auto low = [](SEXP x) {
    std::string t = as<std::string>(x);
    for (auto &ch_ : t) ch_ = (char)tolower(ch_);
    return t;
  };
  if (f == "s.roc") {
    NumericVector y = num(a["y"]), s = num(a["scores"]), w, cs;
    List o = a["options"];
    int n = y.size();
    ldt::RocOptions r;
    r.NormalizePoints = true;
    r.LowerThreshold = as<double>(o["lowerThreshold"]), r.UpperThreshold = as<double>(o["upperThreshold"]), r.Epsilon = as<double>(o["epsilon"]);
    r.Pessimistic = as<bool>(o["pessimistic"]);
    bool hc = o["costs"] != R_NilValue, hw = a["weights"] != R_NilValue;
    NumericMatrix cm;
    if (hc) {
      cs = num(o["costs"]), cm = as<NumericMatrix>(o["costMatrix"]);
      r.Costs.SetData(&cs[0], n, 1), r.CostMatrix.SetData(&cm[0], 2, 2);
    }
    Matrix<double> my(&y[0], n, 1), ms(&s[0], n, 1), mw;
    if (hw) w = num(a["weights"]), mw.SetData(&w[0], n, 1);
    std::unique_ptr<ldt::RocBase> b;
    if (hw && hc) b = std::make_unique<ldt::ROC<true, true>>(n);
    else if (hw) b = std::make_unique<ldt::ROC<true, false>>(n);
    else if (hc) b = std::make_unique<ldt::ROC<false, true>>(n);
    else b = std::make_unique<ldt::ROC<false, false>>(n);
    b->Calculate(my, ms, hw ? &mw : nullptr, r);
    List L(res);
    same(L["auc"], &b->Result, 1, "the area under the curve");
    std::vector<double> p;
    for (auto &q : b->Points) p.push_back(std::get<0>(q));
    for (auto &q : b->Points) p.push_back(std::get<1>(q));
    same(L["points"], p.data(), p.size(), "the curve");
  } else if (f == "s.pca") {
    NumericMatrix x = as<NumericMatrix>(a["x"]), nx;
    bool hn = a["newX"] != R_NilValue;
    Matrix<double> mx(&x[0], x.nrow(), x.ncol()), mn;
    if (hn) nx = as<NumericMatrix>(a["newX"]), mn.SetData(&nx[0], nx.nrow(), nx.ncol());
    ldt::PcaAnalysis m(x.nrow(), x.ncol(), hn ? nx.nrow() : 0, false, true, as<bool>(a["center"]), as<bool>(a["scale"]));
    auto W = std::make_unique<double[]>(m.WorkSize), S = std::make_unique<double[]>(m.StorageSize);
    m.Calculate(mx, W.get(), S.get(), hn ? &mn : nullptr);
    List L(res);
    same(L["directions"], m.Directions.Data, m.Directions.length(), "the directions");
    same(L["stds"], m.Stds.Data, m.Stds.length(), "the standard deviations");
    same(L["stds2Ratio"], m.Stds2Ratios.Data, m.Stds2Ratios.length(), "the ratios");
    if (hn) same(L["projections"], m.Forecasts.Data, m.Forecasts.length(), "the projections");
    else if (L["projections"] != R_NilValue) violate("other-result", "projections without new data");
  } else if (f == "s.distance") {
    NumericMatrix x = as<NumericMatrix>(a["data"]);
    auto d = ldt::DistanceBase::GetFromType(as<bool>(a["checkNan"]), ldt::FromString_DistanceMethod(low(a["distance"]).c_str()), ldt::FromString_CorrelationMethod(low(a["correlation"]).c_str()), x.nrow(), x.ncol());
    auto W = std::make_unique<double[]>(d->WorkSize), S = std::make_unique<double[]>(d->StorageSize);
    d->Calculate(Matrix<double>(&x[0], x.nrow(), x.ncol()), S.get(), W.get());
    same(res, d->Result.Data, d->Result.length_array(), "the distances");
  } else if (f == "s.combine.stats4") {
    ldt::RunningMoments<4, true, true, double> r;
    for (int i = 0; i < 2; i++) {
      List l = a[i];
      r.Combine(as<double>(l["mean"]), as<double>(l["variance"]), as<double>(l["skewness"]), as<double>(l["kurtosis"]), as<double>(l["weight"]), as<int>(l["count"]));
    }
    List L(res);
    double v[6] = {r.GetMean(), r.GetVariance(), r.GetSkewness(), r.GetKurtosis(), r.SumWeights, (double)r.Count};
    const char *nm[6] = {"mean", "variance", "skewness", "kurtosis", "weight", "count"};
    for (int i = 0; i < 6; i++) same(L[nm[i]], v + i, 1, nm[i]);
  } else if (f == "s.gld.quantile" || f == "s.gld.density.quantile") {
    NumericVector q = num(a[0]);
    std::vector<double> v;
    double l[4];
    for (int i = 0; i < 4; i++) l[i] = as<double>(a[i + 1]);
    for (double p : q) v.push_back(f == "s.gld.quantile" ? ldt::DistributionGld::GetQuantile(p, l[0], l[1], l[2], l[3]) : ldt::DistributionGld::GetDensityQuantile(p, l[0], l[1], l[2], l[3]));
    same(res, v.data(), v.size(), "the quantiles");
  } else if (f == "s.cluster.h") {
    NumericVector d0 = num(a["distances"]), d = clone(d0);
    int n = (int)std::lround((1 + std::sqrt(1.0 + 8 * d.size())) / 2);
    auto c = ldt::HClusterBase::GetFromType(ldt::FromString_HClusterLinkage(low(a["linkage"]).c_str()), n);
    ldt::MatrixSym<false> md(&d[0], n);
    c->Calculate(md);
    std::vector<double> h(n - 1);
    std::vector<int> mg(2 * (n - 1)), od;
    Matrix<double> mh(h.data(), n - 1);
    Matrix<int> mm(mg.data(), n - 1, 2);
    c->MergeR(mm, mh, od);
    List L(res);
    same(L["height"], h.data(), h.size(), "the heights");
    std::vector<double> v(mg.begin(), mg.end());
    same(L["merge"], v.data(), v.size(), "the merges");
  } else
    return;
  probe("compared with the library");
}
} // namespace

SCENARIO("P18", p18_calls, 1) {
  int kind = chance(0.6) ? (int)ch(3) : 3 + (int)ch(9);
  int seed = (int)(chseed() & 0xffffff);
  NumericVector u(40);
  R_PreserveObject(u);
  for (auto &x : u) x = chreal();
  World w = gen_world(1);
  w.event_budget = 400000000;
  w.race = false;
  w.policy = P_SERIAL;
  w.oob_fatal = true;
  begin(w);
  SEXP c, before;
  {
    SEXP k = PROTECT(Rf_ScalarInteger(kind)), s = PROTECT(Rf_ScalarInteger(seed)), f = PROTECT(fn("mk"));
    c = eval(PROTECT(Rf_lang4(f, k, s, u)), "arguments");
    R_PreserveObject(c);
    before = eval(PROTECT(Rf_lang2(PROTECT(fn("copy")), c)), "arguments");
    R_PreserveObject(before);
    UNPROTECT(6);
  }
  std::string f = as<std::string>(List(c)["f"]);
  List a = List(c)["a"];
  bool simul = kind < 3 && as<double>(a["simFixSize"]) > 0;
  describe("%s%s", f.c_str(), simul ? " with simulations" : "");
  uint64_t na = fault_seen(F_ALLOC), nl = fault_seen(F_LAPACK);
  Res ref = call(c, false);
  na = fault_seen(F_ALLOC) - na, nl = fault_seen(F_LAPACK) - nl;
  auto unchanged = [&](const char *when) {
    std::string d = diff(c, before, false, false);
    if (!d.empty()) violate("argument-changed", "%s (%s): an argument of the caller changed: %s", f.c_str(), when, d.c_str());
  };
  auto check = [&](const Res &r, const char *when, bool noinfo, bool partly) {
    if (r.ok != ref.ok) violate("other-outcome", "%s: %s %s%s, undisturbed %s%s", f.c_str(), when, r.ok ? "returns" : "raises ", r.msg.c_str(), ref.ok ? "it returns" : "it raises ", ref.msg.c_str());
    if (!r.ok && r.msg != ref.msg) violate("other-outcome", "%s: %s raises '%s', undisturbed '%s'", f.c_str(), when, r.msg.c_str(), ref.msg.c_str());
    if (r.ok) {
      std::string d = diff(r.res, ref.res, noinfo, partly);
      if (!d.empty()) violate("other-result", "%s: %s the result differs from the undisturbed one: %s", f.c_str(), when, d.c_str());
    }
    if (!partly && r.ws != ref.ws) violate("other-warning", "%s: %s warns '%s', undisturbed '%s'", f.c_str(), when, r.ws.c_str(), ref.ws.c_str());
  };
  unchanged("undisturbed");
  if (ref.ok) {
    direct(f, a, ref.res);
    nontrivial();
    probe("returns");
  } else probe("raises");
  observe_s(ref.msg);
  int rounds = 1 + (int)ch(3);
  for (int t = 0; t < rounds; t++) {
    int how = chance(0.3) ? 0 : (int)ch(5);
    switch (how) {
    case 0: { // the collector at arbitrary allocations; the numbers as other numbers
      bool dbl = chance(0.3);
      SEXP c2 = c;
      if (dbl) {
        c2 = eval(PROTECT(Rf_lang2(PROTECT(fn("dbl")), c)), "arguments");
        R_PreserveObject(c2);
        UNPROTECT(2);
      }
      if (chance(0.4)) torture(chance(0.5));
      else if (chance(0.6)) inside(1, 1);
      else inside((int)std::exp(chreal() * 3.5), (int)std::exp(chreal() * 5));
      Res r = call(c2, false);
      inside(0, 0);
      torture_end();
      check(r, dbl ? "with double numbers under collections" : "under collections", dbl, false);
      break;
    }
    case 1: {
      if (!na || !ref.ok) break; // (the message of an error needs memory in Rcpp itself)
      uint64_t at = fault_seen(F_ALLOC) + (uint64_t)(chreal() * (double)na), f0 = fault_fired(F_ALLOC);
      add_rule({F_ALLOC, at, 1, 0}); // (one: the messages of Rcpp need memory)
      Res r = call(c, false);
      clear_rules();
      if (fault_fired(F_ALLOC) == f0) check(r, "with memory", false, false);
      else if (r.ok) {
        if (!ref.ok) violate("other-outcome", "%s: without memory it returns, otherwise it raises '%s'", f.c_str(), ref.msg.c_str());
        check(r, "without memory", false, true);
      } else probe("raises without memory");
      break;
    }
    case 2: {
      if (!nl) break;
      uint64_t at = fault_seen(F_LAPACK) + (uint64_t)(chreal() * (double)nl);
      add_rule({F_LAPACK, at, chance(0.7) ? 1 : 1 + ch(20), 0});
      Res r = call(c, false);
      clear_rules();
      probe(r.ok ? "returns after a failing routine" : "raises after a failing routine");
      break;
    }
    case 3: { // warnings are errors
      Res r = call(c, true);
      if (ref.ws.empty()) check(r, "with warnings as errors", false, false);
      else if (r.ok) violate("warning-lost", "%s: with warnings as errors it returns, but it warns '%s'", f.c_str(), ref.ws.c_str());
      else probe("a warning as an error");
      break;
    }
    default: check(call(c, false), "repeated", false, false);
    }
    unchanged("disturbed");
    state_key((uint64_t)kind * 64 + how * 8 + (ref.ok ? 1 : 0));
  }
  check(call(c, false), "at the end", false, false);
  unchanged("at the end");
  observe((uint64_t)kind);
  if (ref.ok && Rf_isNumeric(ref.res))
    for (double d : num(ref.res)) observe_d(d);
  end(false);
}

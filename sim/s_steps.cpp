// Step-wise searches of the R session (P15): the package's own R code runs in the embedded R, on a simulated disk that
// fails, fills up, tears writes and stops at a crash.
#define STRICT_R_HEADERS
#include "rt.h"
#include "s_r.h"
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
using namespace sim;
using namespace Rcpp;

// ---------------------------------------------------------------- the disk
namespace disk {
static std::string root;          // the folder that is the disk
static bool on = false;           // a session is using it
static bool frozen = false;       // the process has "crashed": nothing reaches the disk any more
static uint64_t ops = 0;          // operations that change the disk
static uint64_t crash_at = ~0ULL, fail_at = ~0ULL;
static int64_t room = -1;         // bytes left (-1: no limit)
static double part = 0;           // how much of the write in progress arrives
static std::string last;          // the file written last
static bool power = false;        // the crash loses the power: what was written last may be damaged
static bool mine(const char *p) {
  if (!on || !p) return false;
  if (p[0] == '/') return strncmp(p, root.c_str(), root.size()) == 0;
  char b[4096];
  return getcwd(b, sizeof b) && strncmp(b, root.c_str(), root.size()) == 0;
}
enum { GO, FAIL, DEAD };
static int op() { // one operation that changes the disk
  if (frozen) return DEAD;
  uint64_t n = ops++;
  if (n == crash_at) {
    frozen = true;
    fault_mark(F_CRASH);
    return DEAD;
  }
  if (n == fail_at) {
    fault_mark(F_DISK);
    return FAIL;
  }
  return GO;
}
struct File { int fd; };
static ssize_t cwrite(void *c, const char *b, size_t n) {
  File *f = (File *)c;
  bool was = frozen;
  int o = op();
  size_t k = n;
  if (o == DEAD) {
    if (!was) {
      k = (size_t)(part * (double)n);
      if (write(f->fd, b, k) < 0) {}
    }
    return (ssize_t)n;
  }
  if (o == FAIL) {
    errno = EIO;
    return 0;
  }
  if (room >= 0 && (int64_t)k > room) {
    k = (size_t)room;
    if (write(f->fd, b, k) < 0) {}
    room = 0;
    fault_mark(F_DISK);
    errno = ENOSPC;
    return 0;
  }
  if (room >= 0) room -= (int64_t)k;
  ssize_t w = write(f->fd, b, k);
  return w < 0 ? 0 : w;
}
static int cclose(void *c) {
  File *f = (File *)c;
  int fd = f->fd;
  delete f;
  return close(fd);
}
} // namespace disk
extern "C" {
#define REAL_FN(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)
FILE *fopen(const char *path, const char *mode) {
  REAL_FN(fopen);
  if (!disk::mine(path) || (mode[0] == 'r' && !strchr(mode, '+'))) return real(path, mode);
  int o = disk::op();
  if (o == disk::FAIL) {
    errno = EACCES;
    return nullptr;
  }
  int fd = o == disk::DEAD ? open("/dev/null", O_WRONLY) : open(path, O_WRONLY | O_CREAT | (mode[0] == 'a' ? O_APPEND : O_TRUNC), 0644);
  if (fd < 0) return nullptr;
  if (o != disk::DEAD) disk::last = path[0] == '/' ? path : disk::root + "/" + path;
  cookie_io_functions_t io = {nullptr, disk::cwrite, nullptr, disk::cclose};
  return fopencookie(new disk::File{fd}, "w", io);
}
int rename(const char *a, const char *b) {
  REAL_FN(rename);
  if (!disk::mine(b)) return real(a, b);
  int o = disk::op();
  if (o == disk::FAIL) return errno = EIO, -1;
  if (o == disk::DEAD) return 0;
  if (!real(a, b)) {
    if (disk::last.size() && disk::last.find(a) != std::string::npos) disk::last = b[0] == '/' ? b : disk::root + "/" + b;
    return 0;
  }
  return -1;
}
int unlink(const char *a) {
  REAL_FN(unlink);
  if (!disk::mine(a)) return real(a);
  int o = disk::op();
  if (o == disk::FAIL) return errno = EIO, -1;
  return o == disk::DEAD ? 0 : real(a);
}
int remove(const char *a) {
  REAL_FN(remove);
  if (!disk::mine(a)) return real(a);
  int o = disk::op();
  if (o == disk::FAIL) return errno = EIO, -1;
  return o == disk::DEAD ? 0 : real(a);
}
}
static int rm1(const char *p, const struct stat *, int, struct FTW *) { return unlink(p) && rmdir(p); }
static void wipe(const std::string &d) {
  if (d.find("/ldt-steps-") == std::string::npos) return;
  nftw(d.c_str(), rm1, 8, FTW_DEPTH | FTW_PHYS);
}
static std::string g_base;
static SEXP E = nullptr; // the environment of the package's functions
static uint64_t g_calls = 0, g_step_fail = ~0ULL;
static bool g_stopped = false;
extern "C" SEXP sim_step_hook() { // before the search of a step
  if (!disk::on) return R_NilValue;
  if (disk::frozen) Rf_error("the process has ended");
  if (g_calls++ == g_step_fail) {
    fault_mark(F_SCRIPT);
    g_stopped = true;
    Rf_error("the step failed");
  }
  return R_NilValue;
}
extern "C" void R_init_ldt(DllInfo *);
static const char *HELPER = R"R(
.h <- new.env()
.h$kind <- c("sur", "bin", "varma")
.h$args <- function(c) {
  set.seed(c$seed)
  n <- c$n; k <- c$exo; m <- c$endo
  X <- matrix(rnorm(n * k), n)
  if (c$twin && k > 1) X[, k] <- X[, 1] + if (c$twin > 1) rnorm(n) * 1e-9 else 0
  if (c$flat && k > 2) X[, 2] <- 3
  Y <- matrix(rnorm(n * m), n) + X[, 1] %o% rep(c(0.8, -0.5, 0.3, 0.1), length.out = m) + 0.5
  if (c$kind == 1) {
    Y <- matrix(as.numeric(Y[, 1] > 0.4), n); Y[1, 1] <- 0; Y[2, 1] <- 1
  }
  if (c$kind == 2) Y <- apply(Y, 2, function(v) as.numeric(stats::filter(v, 0.5, "recursive")) + 5)
  colnames(Y) <- paste0("V", 1:ncol(Y)); colnames(X) <- paste0("X", 1:k)
  if (c$kind != 1 && c$missing) Y[c$missing, 1] <- NA
  if (c$kind == 2)
    data <- get.data(Y, endogenous = ncol(Y), addIntercept = TRUE)
  else
    data <- get.data(cbind(Y, X), endogenous = ncol(Y), addIntercept = TRUE, weights = if (c$weights) runif(n, 0.5, 2) else NULL)
  comb <- get.combinations(sizes = c$sizes, numTargets = c$targets, numFixPartitions = c$fix,
    innerGroups = if (c$kind == 0) c(list(seq_len(m)), if (m > 1 && c$targets == 1) list(1)) else list(1),
    stepsNumVariables = rep(NA, length(c$sizes)), stepsSavePre = if (c$save) "pre_" else NULL)
  met <- get.search.metrics(typesIn = c$tin, typesOut = c$tout, simFixSize = 3, trainRatio = 0.8, seed = c$simseed,
                            horizons = if (c$kind == 2) 1:2 else 1L, minMetrics = list(aic = c$minaic))
  chk <- get.search.modelchecks(maxConditionNumber = c$maxcn, minDof = c$mindof, minR2 = c$minr2)
  items <- get.search.items(model = TRUE, type1 = c$type1, bestK = c$best, all = c$all, inclusion = c$incl, cdfs = if (c$type1) c$cdfs else numeric(0),
                            extremeMultiplier = if (c$type1) c$ext else 0, mixture4 = c$type1 && c$mix)
  a <- list(data = data, combinations = comb, metrics = met, modelChecks = chk, items = items, options = get.search.options(parallel = c$par))
  if (c$kind == 1) { a$searchLogit <- TRUE; a$searchProbit <- c$probit }
  if (c$kind == 2) { a$maxParams <- c(c$ar, 0, c$ma, 0, 0, 0); a$maxHorizon <- 2 }
  a
}
.h$call <- function(kind, a) do.call(get(paste0("search.", .h$kind[kind + 1])), a)
.h$run <- function(kind, a, dir) {
  if (!is.null(dir)) { old <- setwd(dir); on.exit(setwd(old)) }
  tryCatch(list(ok = TRUE, res = suppressWarnings(.h$call(kind, a)), msg = ""),
           error = function(e) list(ok = FALSE, res = NULL, msg = conditionMessage(e)),
           interrupt = function(e) list(ok = FALSE, res = NULL, msg = "interrupt"))
}
.h$step <- function(kind, a, i) { # the search of one step alone
  a$combinations$sizes <- a$combinations$sizes[[i]]
  a$combinations$stepsSavePre <- NULL
  a$items$inclusion <- TRUE
  .h$run(kind, a, NULL)
}
.h$norm <- function(r) { r$info$startTime <- NULL; r$info$endTime <- NULL; r$results <- NULL; r$counts <- NULL; r } # (compared apart: the order of work shows in the last digits)
.h$same <- function(a, b) {
  a <- .h$norm(a); b <- .h$norm(b)
  if (identical(a, b)) return("")
  w <- function(a, b, p) {
    if (identical(a, b)) return(NULL)
    if (is.list(a) && is.list(b) && length(a) == length(b) && identical(names(a), names(b)))
      for (i in seq_along(a)) {
        r <- w(a[[i]], b[[i]], paste0(p, "$", if (is.null(names(a))) i else names(a)[i]))
        if (!is.null(r)) return(r)
      }
    paste0(p, ": ", paste(utils::head(deparse(a), 3), collapse = " "), " / ", paste(utils::head(deparse(b), 3), collapse = " "))
  }
  w(a, b, "")
}
for (n in c(".SearchSur", ".SearchDc", ".SearchVarma")) local({
  f <- get(n)
  assign(n, function(...) { .Call(.hook); f(...) }, envir = parent.env(environment()))
})
)R";
static SEXP ev(const std::string &code, SEXP env) {
  ParseStatus st;
  SEXP txt = PROTECT(Rf_mkString(code.c_str()));
  SEXP ex = PROTECT(R_ParseVector(txt, -1, &st, R_NilValue));
  SEXP r = R_NilValue;
  int err = st != PARSE_OK;
  for (int i = 0; !err && i < Rf_length(ex); i++) r = R_tryEval(VECTOR_ELT(ex, i), env, &err);
  UNPROTECT(2);
  if (err) fprintf(stderr, "R: the package's R code cannot be loaded: %.60s\n", code.c_str()), exit(2);
  return r;
}
void steps_init() { // the package's R code, in an environment of its own
  R_init_ldt(R_getEmbeddingDllInfo());
  E = ev("new.env(parent = globalenv())", R_GlobalEnv);
  R_PreserveObject(E);
  Rf_defineVar(Rf_install(".hook"), R_MakeExternalPtrFn((DL_FUNC)sim_step_hook, Rf_install("native symbol"), R_NilValue), E);
  Rf_defineVar(Rf_install(".dir"), Rf_mkString(R_PKG_DIR), E);
  ev("for (.f in sort(list.files(paste0(.dir, '/R'), '[.]R$', full.names = TRUE))) eval(parse(text = gsub(\"PACKAGE *= *'ldt'\", \"PACKAGE = '(embedding)'\", readLines(.f, warn = FALSE)), keep.source = FALSE), environment())", E);
  ev(HELPER, E);
  est_init();
  const char *b = getenv("LDTSIM_TMP");
  g_base = std::string(b && *b ? b : "/tmp") + "/ldt-steps-" + std::to_string(getpid());
}
SEXP ldt_env() { return E; }
void torture_end() { ev("gctorture2(0)", R_GlobalEnv); }
namespace sim {
void app_cleanup() { if (!g_base.empty()) wipe(g_base); }
} // namespace sim

void torture(bool dense) {
  int step = (int)std::exp(std::log(dense ? 60 : 300) + chreal() * (std::log(dense ? 600 : 30000) - std::log(dense ? 60 : 300))), wait = (int)(chreal() * 3000);
  ev("gctorture2(" + std::to_string(step) + "," + std::to_string(wait) + ")", R_GlobalEnv);
  fault_mark(F_GC);
}
namespace {
struct Run { bool ok = false; SEXP res = R_NilValue; std::string msg; };
Run call(const char *fn, std::initializer_list<SEXP> args) {
  Run r;
  Environment h = Environment(E)[".h"];
  SEXP f = PROTECT(h.get(fn));
  SEXP c = PROTECT(Rf_allocVector(LANGSXP, 1 + args.size()));
  SETCAR(c, f);
  SEXP p = CDR(c);
  for (auto a : args) SETCAR(p, a), p = CDR(p);
  SEXP res = R_NilValue;
  int err = 0;
  Outcome q = sut([&] { res = R_tryEvalSilent(c, E, &err); });
  if (!q.ok) r.msg = "the R session broke: " + q.kind + " " + q.what;
  else if (err) r.msg = std::string("uncaught: ") + R_curErrorBuf();
  else {
    R_PreserveObject(res);
    List L(res);
    r.ok = as<bool>(L["ok"]);
    r.msg = as<std::string>(L["msg"]);
    r.res = L["res"];
  }
  UNPROTECT(2);
  return r;
}
// the steps' own results, put together
Flat merge(std::vector<Flat> &v, size_t best) {
  Flat f;
  std::map<std::string, std::vector<std::pair<std::vector<double>, std::string>>> bests;
  for (auto &s : v) {
    for (auto &p : s.all) f.all[p.first].insert(p.second.begin(), p.second.end());
    for (auto &p : s.num) {
      auto &k = p.first;
      bool fresh = !f.num.count(k);
      if (k.find("|best ") != std::string::npos) {
        bests[k.substr(0, k.rfind('|'))].push_back({p.second, s.txt[k]});
        continue;
      }
      auto &d = f.num[k];
      if (fresh) {
        d = p.second;
        if (s.txt.count(k)) f.txt[k] = s.txt[k];
        continue;
      }
      auto &e = p.second;
      if (d.size() != e.size()) continue; // (found by the comparison)
      auto pool = [&](size_t m, double w, double w2, double &r) { // mean of two groups of weights w and w2
        r = w2 == 0 ? d[m] : w == 0 ? e[m] : (d[m] * w + e[m] * w2) / (w + w2);
      };
      if (k.rfind("count|", 0) == 0 || k.rfind("failed|", 0) == 0) d[0] += e[0];
      else if (k.find("|inclusion") != std::string::npos) {
        size_t n = d.size() / 2;
        for (size_t i = 0; i < n; i++) pool(i, d[n + i], e[n + i], d[i]), d[n + i] += e[n + i];
      } else if (k.find("|cdf") != std::string::npos) {
        size_t n = d.size() / 3;
        for (size_t i = 0; i < n; i++) {
          pool(i, d[n + i] ? d[2 * n + i] : 0, e[n + i] ? e[2 * n + i] : 0, d[i]);
          d[n + i] += e[n + i], d[2 * n + i] += e[2 * n + i];
        }
      } else if (k.find("|extreme") != std::string::npos) {
        size_t n = d.size() / 2;
        for (size_t i = 0; i < n; i++) d[i] = std::fmin(d[i], e[i]), d[n + i] = std::fmax(d[n + i], e[n + i]);
      } else if (k.find("|mixture") != std::string::npos) {
        size_t n = d.size() / 6;
        for (size_t i = 0; i < n; i++) {
          double w = d[4 * n + i] ? d[5 * n + i] : 0, w2 = e[4 * n + i] ? e[5 * n + i] : 0, m1 = d[i], m2 = e[i], m;
          pool(i, w, w2, m);
          if (w2 != 0) d[n + i] = w == 0 ? e[n + i] : (w * (d[n + i] + (m1 - m) * (m1 - m)) + w2 * (e[n + i] + (m2 - m) * (m2 - m))) / (w + w2);
          d[i] = m;
          // (values without any weight do not count)
          d[4 * n + i] = (w ? d[4 * n + i] : 0) + (w2 ? e[4 * n + i] : 0), d[5 * n + i] += e[5 * n + i];
        }
      }
    }
  }
  for (auto &p : bests) {
    auto m = p.first.substr(0, p.first.find('|'));
    bool up = m == "aucIn" || m == "aucOut" || m == "sign" || m == "direction";
    auto l = p.second;
    std::stable_sort(l.begin(), l.end(), [&](auto &a, auto &b) { return up ? a.first[0] > b.first[0] : a.first[0] < b.first[0]; });
    for (size_t j = 0; j < l.size() && j < best; j++) {
      auto k = p.first + "|" + std::to_string(j);
      f.num[k] = l[j].first, f.txt[k] = l[j].second;
    }
  }
  return f;
}
} // namespace

SCENARIO("P15", p15_steps, 1) {
  int kind = chance(0.5) ? 0 : (int)ch(3);
  int exo = chi(2, 4), endo = kind == 1 ? 1 : kind == 2 ? chi(2, 3) : chi(1, 2), n = chi(20, 34);
  if (kind == 2) n = chi(18, 24);
  int parts = kind == 2 ? endo : exo + 1, ns = chi(1, 4);
  List sizes;
  std::string st;
  for (int i = 0; i < ns; i++) {
    std::set<int> s;
    int c = chance(0.6) ? 1 : 2;
    while ((int)s.size() < c) s.insert(chi(1, std::min(parts, kind == 0 && i == 0 ? 2 : 4)));
    sizes.push_back(NumericVector(s.begin(), s.end()));
    st += "(";
    for (int x : s) st += std::to_string(x);
    st += ")";
  }
  CharacterVector tin, tout;
  std::vector<std::string> ti = kind == 1 ? std::vector<std::string>{"aic", "sic", "aucIn", "brierIn"} : std::vector<std::string>{"aic", "sic"},
                           to = kind == 1 ? std::vector<std::string>{"aucOut", "brierOut"} : std::vector<std::string>{"rmse", "mae", "sign", "crps"};
  for (auto &x : ti)
    if (chance(0.6)) tin.push_back(x);
  if (chance(0.35))
    for (auto &x : to)
      if (chance(0.4)) tout.push_back(x);
  if (!tin.size() && !tout.size()) tin.push_back("aic");
  int best = chi(1, 5), targets = kind == 1 ? 1 : chi(1, endo);
  bool type1 = chance(0.5), par = chance(0.15), save = true;
  int twin = chance(0.35) ? chi(1, 2) : 0, flat_ = chance(0.2), weights = kind == 1 && chance(0.3);
  NumericVector cd;
  if (chance(0.6)) cd.push_back(0);
  if (chance(0.3)) cd.push_back(0.5);
  double maxcn = chance(0.25) ? 20 + 2000 * chreal() * chreal() : INFINITY, minr2 = chance(0.2) && kind == 0 ? 0.4 * chreal() : -INFINITY;
  List c = List::create(_["kind"] = kind, _["seed"] = (int)chseed() & 0xffffff, _["n"] = n, _["exo"] = exo, _["endo"] = endo, _["sizes"] = sizes, _["targets"] = targets, _["fix"] = 0, _["save"] = save, _["tin"] = tin, _["tout"] = tout, _["simseed"] = (chance(0.5) ? 1 : -1) * chi(1, 10000));
  c.push_back(chance(0.5) ? 0.0 : -30.0, "minaic");
  c.push_back(maxcn, "maxcn");
  c.push_back(chance(0.15) ? n - 3 : 0, "mindof");
  c.push_back(minr2, "minr2");
  c.push_back(type1, "type1");
  c.push_back(best, "best");
  c.push_back(chance(0.5), "all");
  c.push_back(chance(0.5), "incl");
  c.push_back(cd, "cdfs");
  c.push_back(chance(0.5) ? 2.0 : 0.0, "ext");
  c.push_back(chance(0.6), "mix");
  c.push_back(par, "par");
  c.push_back(chance(0.3), "probit");
  c.push_back(chi(1, 2), "ar");
  c.push_back(endo == 2 && ns < 3 && chance(0.2) ? 1 : 0, "ma");
  c.push_back(twin, "twin");
  c.push_back(flat_, "flat");
  c.push_back(weights != 0, "weights");
  c.push_back(chance(0.2) ? chi(3, n) : 0, "missing");
  static const char *kn[] = {"SUR", "binary", "VARMA"};
  describe("step-wise %s search, %d observations, %d+%d variables, steps %s, best %d%s%s%s", kn[kind], n, endo, exo, st.c_str(), best, twin ? ", collinear" : "", weights ? ", weights" : "", par ? ", parallel" : "");
  World w = gen_world(4);
  w.event_budget = 800000000;
  w.race = false;
  w.policy = par ? w.policy : P_SERIAL;
  wipe(g_base);
  if (mkdir(g_base.c_str(), 0755)) fprintf(stderr, "no scratch folder %s\n", g_base.c_str()), exit(2);
  std::string A = g_base + "/a", B = g_base + "/b";
  mkdir(A.c_str(), 0755);
  mkdir(B.c_str(), 0755);
  auto dir = [](const std::string &s) { SEXP r = Rf_mkString(s.c_str()); R_PreserveObject(r); return r; };
  SEXP dA = dir(A), dB = dir(B), K = Rf_ScalarInteger(kind);
  R_PreserveObject(K);
  begin(w);
  SEXP args;
  {
    Environment h = Environment(E)[".h"];
    SEXP cc = PROTECT(Rf_lang2(PROTECT(h.get("args")), c));
    int err = 0;
    args = R_tryEvalSilent(cc, E, &err);
    if (err) discard((std::string("arguments: ") + R_curErrorBuf()).c_str());
    R_PreserveObject(args);
    UNPROTECT(2);
  }
  // one uninterrupted run
  bool gc = chance(0.35);
  if (gc) torture(chance(0.15));
  disk::on = false;
  g_console.clear();
  uint64_t polls_ref = fault_seen(F_INTERRUPT);
  Run ref = call("run", {K, args, dA});
  polls_ref = fault_seen(F_INTERRUPT) - polls_ref;
  if (ref.msg.rfind("the R session", 0) == 0 || ref.msg.rfind("uncaught", 0) == 0) violate("session", "uninterrupted: %s", ref.msg.c_str());
  Flat fr;
  if (ref.ok) {
    fr = flat(ref.res);
    // every step alone
    std::vector<Flat> v;
    for (int i = 0; i < ns; i++) {
      Run s = call("step", {K, args, IntegerVector::create(i + 1)});
      if (!s.ok) violate("step", "step %d alone fails (%s) although the whole succeeds", i + 1, s.msg.c_str());
      v.push_back(flat(s.res));
    }
    compare(fr, merge(v, best), "steps put together");
    probe("compared with the steps alone");
    double fc = fr.num["count|failedCount"][0];
    if (fc > 0) probe("steps with failed models");
    if (ns > 1) nontrivial();
  } else {
    // an error has a reason: a step where no model works, or one that raises by itself
    bool why = false;
    for (int i = 0; i < ns; i++) {
      Run s = call("step", {K, args, IntegerVector::create(i + 1)});
      if (!s.ok) why |= s.msg == ref.msg;
      else {
        Flat x = flat(s.res);
        why |= i + 1 < ns && x.num["count|searchedCount"] == x.num["count|failedCount"] && ref.msg == "all estimations failed";
      }
    }
    if (!why) violate("raised", "uninterrupted: the search raised without a reason: %s", ref.msg.c_str());
    probe("the whole search fails");
  }
  if (gc) torture(false);
  // interrupted runs, then one that ends
  int tries = chi(1, 4);
  uint64_t total_ops = 0;
  std::string hist;
  for (int t = 0; t <= tries + 1; t++) {
    bool last = t >= tries;
    disk::frozen = false;
    disk::ops = 0;
    disk::crash_at = disk::fail_at = ~0ULL;
    disk::room = -1;
    disk::part = chreal();
    disk::last.clear();
    g_calls = 0, g_step_fail = ~0ULL, g_stopped = false;
    int how = last ? 0 : (int)ch(6);
    bool power = false;
    if (how == 0 && !last) disk::crash_at = ch(ns * 3 + 1);
    if (how == 1) disk::crash_at = ch(ns * 6 + 1), power = true;
    if (how == 2) disk::fail_at = ch(ns * 3 + 1);
    if (how == 3) disk::room = (int64_t)(chreal() * chreal() * 9000);
    if (how == 4) g_step_fail = ch(ns);
    if (how == 5) add_rule({F_INTERRUPT, fault_seen(F_INTERRUPT) + (uint64_t)(chreal() * (double)(polls_ref + 1)), 1, 0});
    uint64_t i0 = fault_fired(F_INTERRUPT), d0 = fault_fired(F_DISK);
    disk::root = B;
    disk::on = true;
    Run r = call("run", {K, args, dB});
    disk::on = false;
    bool intr = fault_fired(F_INTERRUPT) > i0, dk = fault_fired(F_DISK) > d0;
    clear_rules();
    total_ops += disk::ops;
    static const char *hn[] = {"crash", "power loss", "disk error", "disk full", "failing step", "interrupt"};
    hist += last ? " whole" : std::string(" ") + hn[how];
    if (r.msg.rfind("the R session", 0) == 0 || r.msg.rfind("uncaught", 0) == 0) violate("session", "after%s: %s", hist.c_str(), r.msg.c_str());
    if (disk::frozen) {
      probe(power ? "power loss" : "crash");
      struct stat sb;
      if (power && disk::last.size() && !stat(disk::last.c_str(), &sb) && sb.st_size > 0 && chance(0.8)) {
        // the end of the file written last is lost, or was never written
        off_t keep = (off_t)(chreal() * (double)sb.st_size);
        bool zero = chance(0.4);
        if (truncate(disk::last.c_str(), keep)) {}
        if (zero && truncate(disk::last.c_str(), sb.st_size)) {}
        fault_mark(F_CORRUPT);
        probe(zero ? "torn: zeroed" : "torn: cut");
      }
      continue; // (nobody sees the outcome)
    }
    const char *nm = last ? "whole" : hn[how];
    if (r.ok) {
      if (!ref.ok) violate("result", "after%s: the search returns, but uninterrupted it raises: %s", hist.c_str(), ref.msg.c_str());
      compare(flat(r.res), fr, ("after" + hist).c_str());
      Environment h = Environment(E)[".h"];
      SEXP cc = PROTECT(Rf_lang3(PROTECT(h.get("same")), ref.res, r.res));
      int err = 0;
      SEXP s = R_tryEvalSilent(cc, E, &err);
      std::string d = err ? "(the results cannot be compared)" : as<std::string>(s);
      UNPROTECT(2);
      if (!d.empty()) violate("resumed", "after%s: the result differs from an uninterrupted one in %s", hist.c_str(), d.c_str());
      if (intr) violate("interrupt-ignored", "after%s: the call returned although the user interrupted it", hist.c_str());
      if (g_stopped) violate("step-ignored", "after%s: the call returned although a step failed", hist.c_str());
      if (g_calls < (uint64_t)ns) probe("resumed from saved steps");
      if (last && t > tries && g_calls == 0) probe("all steps loaded");
    } else if (!intr && !dk && !g_stopped) {
      if (ref.ok) violate("raised", "after%s: %s", hist.c_str(), r.msg.c_str());
      if (r.msg != ref.msg) violate("raised", "after%s: raised '%s', uninterrupted '%s'", hist.c_str(), r.msg.c_str(), ref.msg.c_str());
    }
    probe(nm);
    state_key((uint64_t)(t * 64 + how * 8 + (r.ok ? 1 : 0) + (intr ? 2 : 0) + (dk ? 4 : 0)) * 16 + std::min<uint64_t>(g_calls, 15));
    observe(g_calls);
    observe_s(r.msg);
  }
  observe(total_ops);
  if (ref.ok)
    for (auto &p : fr.num)
      for (double d : p.second) observe_d(d);
  end(false);
  wipe(g_base);
}

// Streaming statistics (P13), stored text of variables (P14) and optimisers (P16).
#include "ops.h"
#include "optimization.h"
#include "running.h"
#include "variable.h"
#include <algorithm>
#include <mutex>
using namespace ldt;

// ------------------------------------------------------------------ P13
namespace {
struct Obs {
  double x, w;
};
struct Stat {
  double mean = NAN, var = NAN, skew = NAN, kurt = NAN, W = 0, scale = 0, relvar = 0;
  long n = 0;
};
Stat population(const std::vector<Obs> &d, bool weighted, bool skipnan) {
  Stat s;
  long double W = 0, m = 0;
  bool bad = false;
  for (auto &o : d) {
    if (std::isnan(o.x)) {
      if (skipnan) continue;
      if (!weighted || o.w != 0) bad = true;
    }
    double w = weighted ? o.w : 1;
    s.n++;
    W += w;
    if (w == 0) continue;
    s.scale = std::max(s.scale, std::fabs(o.x));
  }
  s.W = (double)W;
  if (W == 0) return s;
  if (bad) {
    s.scale = NAN;
    return s;
  }
  for (auto &o : d)
    if (!std::isnan(o.x)) m += (weighted ? (long double)o.w : 1) / W * o.x;
  long double a2 = 0, a3 = 0, a4 = 0;
  for (auto &o : d) {
    if (std::isnan(o.x)) continue;
    long double w = (weighted ? (long double)o.w : 1) / W, e = o.x - m;
    a2 += w * e * e; a3 += w * e * e * e; a4 += w * e * e * e * e;
  }
  s.mean = (double)m;
  s.var = (double)a2;
  s.skew = (double)(a3 / powl(a2, 1.5L));
  s.kurt = (double)(a4 / (a2 * a2) - 3);
  s.relvar = s.scale > 0 ? (double)(a2 / ((long double)s.scale * s.scale)) : 0;
  return s;
}
std::vector<Obs> gen_obs() {
  sim::Rng g(sim::chseed());
  int n = (int)sim::ch(30);
  std::vector<Obs> d;
  double loc = sim::ch(3) == 0 ? 1000 * g.normal() : g.normal(), sc = sim::ch(4) == 0 ? 1e-3 : 1;
  int wk = (int)sim::ch(5); // weights: moderate, with zeros, tiny, widely spread, huge
  bool missing = sim::ch(2);
  for (int i = 0; i < n; i++) {
    Obs o{loc + sc * g.normal(), 0.1 + g.real()};
    if (missing && g.u(4) == 0) o.x = NAN;
    if (wk == 1 && g.u(3) == 0) o.w = 0;
    if (wk == 2) o.w *= 1e-180;
    if (wk == 3) o.w *= std::pow(10.0, -(double)g.u(280));
    if (wk == 4) o.w *= 1e80;
    d.push_back(o);
  }
  if (sim::ch(6) == 0)
    for (auto &o : d)
      if (!std::isnan(o.x)) o.x = loc; // constant data
  return d;
}
void check_stat(const char *how, int M, const Stat &s, double mean, double var, double skew, double kurt, double W, long n, bool count) {
  char b[300];
  auto bad = [&](const char *what, double got, double want, double tol) {
    if (std::isnan(want) ? std::isnan(got) : std::fabs(got - want) <= tol) return;
    snprintf(b, sizeof b, "%s: %s is %.17g, the population value is %.17g (%ld values, total weight %g)", how, what, got, want, s.n, s.W);
    sim::violate("wrong-statistic", "%s", b);
  };
  if (count && n != s.n) sim::violate("wrong-statistic", "%s: %ld values are counted of %ld", how, n, s.n);
  if (!std::isnan(W)) bad("total weight", W, s.W, 1e-9 * s.W);
  if (std::isnan(s.scale)) return; // a missing value that is not skipped
  bad("mean", mean, s.mean, 1e-9 * s.scale);
  if (M >= 2) bad("variance", var, s.var, 1e-9 * s.var + 1e-13 * s.scale * s.scale);
  double rv = std::max(s.relvar, 1e-300), loss = 1e-12 / rv; // cancellation against the location
  if (loss < 1e-4) {
    if (M >= 3) bad("skewness", skew, s.skew, (1e-7 + loss) * (1 + std::fabs(s.skew)));
    if (M == 4) bad("kurtosis", kurt, s.kurt, (1e-7 + loss) * (10 + std::fabs(s.kurt)) * 10);
  }
}
template <Ti M, bool S, bool Wd> void run_moments() {
  typedef RunningMoments<M, S, Wd, Tv> RM;
  auto d = gen_obs();
  Stat s = population(d, Wd, S);
  int mode = (int)sim::ch(4);
  sim::World w = sim::gen_world(4);
  w.race_fatal = w.oob_fatal = true;
  char how[120];
  snprintf(how, sizeof how, "moments %d%s%s, %s", (int)M, S ? " skipping missing values" : "", Wd ? " weighted" : "",
           mode == 0 ? "one at a time" : mode == 1 ? "merged in a tree" : mode == 2 ? "merged by threads as they finish" : "from an array");
  sim::describe("%s: %zu values", how, d.size());
  for (int i = (int)d.size() - 1; i > 0; i--) std::swap(d[i], d[sim::ch(i + 1)]);
  double mean = 0, var = 0, skew = 0, kurt = 0;
  if (mode == 3) {
    std::vector<double> x, wt;
    for (auto &o : d) x.push_back(o.x), wt.push_back(o.w);
    x.reserve(1), wt.reserve(1); // an array without values is not a null pointer
    sim::begin(w);
    sim::sut([&] {
      mean = 0;
      Array<Tv>::Moments<Wd, S, M>(x.data(), (Ti)x.size(), Wd ? wt.data() : nullptr, mean, &var, &skew, &kurt);
    });
    sim::end(false);
    check_stat(how, M, s, mean, var, skew, kurt, NAN, 0, false);
  } else {
    // parts of the data; some are empty
    int parts = mode == 0 ? 1 : 1 + (int)sim::ch(6);
    std::vector<std::vector<Obs>> P(parts);
    for (auto &o : d) P[sim::ch(parts)].push_back(o);
    std::vector<RM> acc(parts);
    RM total;
    if (mode == 1)
      for (auto &a : acc) (void)a;
    std::vector<std::pair<int, int>> merges; // for the tree
    std::vector<int> form;                   // which merge function
    for (int i = parts; i > 1; i--) {
      int a = (int)sim::ch(i), b = (int)sim::ch(i - 1);
      if (b >= a) b++;
      merges.push_back({a, b});
      form.push_back((int)sim::ch(3));
    }
    std::vector<RM *> pool;
    for (auto &a : acc) pool.push_back(&a);
    sim::begin(w);
    if (mode < 2) {
      sim::sut([&] {
        for (int i = 0; i < parts; i++)
          for (auto &o : P[i]) acc[i].PushNew(o.x, o.w);
        for (size_t k = 0; k < merges.size(); k++) {
          auto *a = pool[merges[k].first], *b = pool[merges[k].second];
          // moments of the part instead of the accumulator itself, where they are defined
          Tv sk = b->GetSkewness(), ku = b->GetKurtosis();
          if (form[k] == 2 && Wd && b->SumWeights > 0 && (M < 2 || b->GetVariance() > 0) && (M < 3 || !std::isnan(sk)) && (M < 4 || !std::isnan(ku)))
            a->Combine(b->GetMean(), b->GetVariance(), sk, ku, b->SumWeights, b->Count);
          else a->Combine(*b);
          pool.erase(pool.begin() + merges[k].second);
        }
      });
      total = *pool[0];
    } else {
      std::mutex mu;
      std::vector<std::function<void()>> fs;
      for (int i = 0; i < parts; i++)
        fs.push_back([&, i] {
          for (auto &o : P[i]) acc[i].PushNew(o.x, o.w);
          std::lock_guard<std::mutex> l(mu);
          total.Combine(acc[i]);
        });
      sim::sut_threads(fs);
    }
    sim::sut([&] { mean = total.GetMean(); var = total.GetVariance(); skew = total.GetSkewness(); kurt = total.GetKurtosis(); });
    sim::end(false);
    check_stat(how, M, s, mean, var, skew, kurt, total.SumWeights, total.Count, true);
    sim::probe(mode == 2 ? "merged by threads" : mode == 1 ? "merged in a tree" : "one at a time");
  }
  sim::observe_d(mean);
  sim::observe_d(var);
  if (d.size() > 1) sim::nontrivial();
  sim::state_key(d.size() * 64 + mode * 16 + M * 2 + S);
}
} // namespace
SCENARIO("P13", p13_streaming_moments, 1) {
  switch (sim::ch(16)) {
  case 0: return run_moments<1, true, true>();
  case 1: return run_moments<2, true, true>();
  case 2: return run_moments<3, true, true>();
  case 3: return run_moments<4, true, true>();
  case 4: return run_moments<1, true, false>();
  case 5: return run_moments<2, true, false>();
  case 6: return run_moments<3, true, false>();
  case 7: return run_moments<4, true, false>();
  case 8: return run_moments<1, false, true>();
  case 9: return run_moments<2, false, true>();
  case 10: return run_moments<3, false, true>();
  case 11: return run_moments<4, false, true>();
  case 12: return run_moments<2, false, false>();
  case 13: return run_moments<4, false, false>();
  default: return run_moments<4, true, true>();
  }
}

// ------------------------------------------------------------------ P14
namespace {
using boost::gregorian::date;
std::string word(sim::Rng &g, bool empty_ok, const char *extra = "") {
  static const std::string base = "abcXYZ019 _-.,()|:";
  std::string a = base + extra, s;
  for (int i = (int)g.u(8) + (empty_ok ? 0 : 1); i > 0; i--) s += a[g.u(a.size())];
  if (!empty_ok && s.empty()) s = "v";
  if (g.u(12) == 0) s += "\xc3\xa9";
  return s;
}
struct Lists {
  std::vector<std::string> s;
  std::vector<date> d;
};
// one variable with every frequency class; 'own' keeps the items of list frequencies
void gen_variable(Variable<Tv> &v, Lists &own, uint64_t seed) {
  sim::Rng g(seed);
  v.Name = word(g, true, ";");
  auto day = date(1500 + g.u(1000), 1 + g.u(12), 1 + g.u(28));
  int k = 1 + (int)g.u(30), z = 1 + (int)g.u(12), year = (int)g.u(3000) - (g.u(10) == 0 ? 2000 : 0);
  DayOfWeekRange range((DayOfWeek)g.u(7), (DayOfWeek)g.u(7));
  auto wk = [&](int c) -> std::unique_ptr<FrequencyWeekBased> {
    switch (c) {
    case 0: return FrequencyWeekBased::Weekly(day);
    case 1: return FrequencyWeekBased::MultiWeekly(day, k);
    case 2: return FrequencyWeekBased::Daily(day);
    case 3: return FrequencyWeekBased::MultiDaily(day, k);
    default: return FrequencyWeekBased::DailyInWeek(day, range, g.u(2));
    }
  };
  switch (g.u(18)) {
  case 0: v.StartFrequency = FrequencyCrossSection((int)g.u(2000) - 1000).Clone(); break;
  case 1: v.StartFrequency = FrequencyYearBased::Yearly(year); break;
  case 2: v.StartFrequency = FrequencyYearBased::Quarterly(year, 1 + g.u(4)); break;
  case 3: v.StartFrequency = FrequencyYearBased::Monthly(year, 1 + g.u(12)); break;
  case 4: v.StartFrequency = FrequencyYearBased::XTimesAYear(year, k, 1 + g.u(k)); break;
  case 5: v.StartFrequency = FrequencyYearBased::MultiYearly(year, z); break;
  case 6: v.StartFrequency = FrequencyYearBased::XTimesZYear(year, k, 1 + g.u(k), z); break;
  case 7: v.StartFrequency = wk(0); break;
  case 8: v.StartFrequency = wk(1); break;
  case 9: v.StartFrequency = wk(2); break;
  case 10: v.StartFrequency = wk(3); break;
  case 11: v.StartFrequency = wk(4); break;
  case 12: v.StartFrequency = FrequencyDayBased::Hourly(*wk(g.u(5)), 1 + g.u(24)); break;
  case 13: v.StartFrequency = FrequencyDayBased::Minutely(*wk(g.u(5)), 1 + g.u(1440)); break;
  case 14: v.StartFrequency = FrequencyDayBased::Secondly(*wk(g.u(5)), 1 + g.u(86400)); break;
  case 15: v.StartFrequency = FrequencyDayBased::XTimesADay(*wk(g.u(5)), k, 1 + g.u(k)); break;
  case 16: {
    int n = 1 + (int)g.u(5), at = (int)g.u(n);
    for (int i = 0; i < n; i++) own.s.push_back(word(g, false));
    auto f = std::make_unique<FrequencyList<std::string>>(own.s.at(at), &own.s);
    if (g.u(4) == 0) f->Next(g.u(2) ? n + (int)g.u(3) : -at - 1 - (int)g.u(3)); // outside the list
    v.StartFrequency = std::move(f);
    break;
  }
  default: {
    int n = 1 + (int)g.u(5), at = (int)g.u(n);
    for (int i = 0; i < n; i++) own.d.push_back(day + boost::gregorian::days(100 * i + (int)g.u(50)));
    auto f = std::make_unique<FrequencyList<date>>(own.d.at(at), &own.d);
    if (g.u(4) == 0) f->Next(g.u(2) ? n + (int)g.u(3) : -at - 1 - (int)g.u(3));
    v.StartFrequency = std::move(f);
  }
  }
  static const double big[] = {1, 1e-3, 1e6, 1e15, 1e-9, 1e40};
  for (int i = (int)g.u(8); i > 0; i--) {
    double x = g.normal() * big[g.u(6)];
    if (g.u(6) == 0) x = g.u(2) ? NAN : g.u(2) ? INFINITY : -INFINITY;
    v.Data.push_back(x);
  }
  for (int i = (int)g.u(4); i > 0; i--) v.Fields.insert({word(g, true), word(g, true, ";")});
}
struct Plain { // copy of a variable in plain types
  std::string name, freq, cls;
  std::vector<double> data;
  std::map<std::string, std::string> fields;
  std::vector<std::string> ls;
  std::vector<date> ld;
};
Plain plain(const Variable<Tv> &v, const Lists &l) {
  Plain p;
  p.name = v.Name;
  p.freq = v.StartFrequency->ToString();
  p.cls = v.StartFrequency->ToClassString(false);
  p.data = v.Data;
  p.fields = v.Fields;
  if (v.StartFrequency->mClass == FrequencyClass::kListString) p.ls = l.s;
  if (v.StartFrequency->mClass == FrequencyClass::kListDate) p.ld = l.d;
  return p;
}
std::string plain_diff(const Plain &a, const Plain &b) {
  if (a.name != b.name) return "name";
  if (a.cls != b.cls) return "frequency class";
  if (a.freq != b.freq) return "frequency";
  if (a.data.size() != b.data.size()) return "number of values";
  for (size_t i = 0; i < a.data.size(); i++) {
    double x = a.data[i], y = b.data[i];
    if (std::isnan(x) ? std::isnan(y) : x == y || std::fabs(x - y) <= 1e-16) continue; // the text has 16 decimals
    return "a value";
  }
  if (a.fields != b.fields) return "fields";
  if (a.ls != b.ls || a.ld != b.ld) return "items of the list";
  return "";
}
std::string printable(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    char b[8];
    if (c == '\t') r += "\\t";
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    else r += (char)c;
  }
  return r;
}
bool known_error(const sim::Outcome &o) { return o.kind == "bad_alloc" || (o.kind == "std" && o.what.rfind("ldt::", 0) == 0); }
} // namespace
SCENARIO("P14", p14_variable_text, 1) {
  int n = 1 + (int)sim::ch(4);
  std::vector<uint64_t> seeds;
  for (int i = 0; i < n; i++) seeds.push_back(sim::chseed());
  bool mem = sim::ch(5) == 0;
  sim::World w = sim::gen_world(2);
  w.race_fatal = w.oob_fatal = w.leak_fatal = true;
  std::vector<std::string> lines;
  std::vector<Plain> orig;
  sim::begin(w);
  {
    for (int i = 0; i < n; i++) {
      auto v = std::make_unique<Variable<Tv>>();
      Lists own;
      gen_variable(*v, own, seeds[i]);
      std::string t;
      auto o = sim::sut([&] { t = v->ToString(); });
      if (!o.ok) sim::violate("text-refused", "a variable cannot be written as text: %s", o.what.c_str());
      std::string t2(t.data(), t.size());
      sim::Harness h;
      lines.push_back(t2);
      orig.push_back(plain(*v, own));
    }
  }
  sim::end(false);
  std::string file;
  for (auto &l : lines) file += l + "\n";
  // what storage does to the text
  int damages = (int)sim::ch(4);
  std::string story;
  for (int k = 0; k < damages; k++) {
    size_t L = file.size();
    size_t p = L ? sim::ch(L) : 0, q = L ? sim::ch(std::min<size_t>(L - p, 64)) : 0;
    switch (sim::ch(9)) {
    case 0: file = file.substr(0, p); story += " torn"; break;
    case 1: file.erase(p, q + 1); story += " lost-block"; break;
    case 2: file.insert(p, file.substr(p, q + 1)); story += " duplicated-block"; break;
    case 3:
      if (L) file[p] = (char)(file[p] ^ (1 << sim::ch(8)));
      story += " bit-flip";
      break;
    case 4: {
      static const std::string a = "0123456789-:;|QMzxywdieLs\t.nahoc ";
      char c = a[sim::ch(a.size())];
      if (L) file[p] = c;
      story += " changed-byte";
      break;
    }
    case 5:
      for (size_t i = p; i < p + q + 1 && i < L; i++) file[i] = 0;
      story += " zeroed-block";
      break;
    case 6: { // two writers wrote their text in pieces
      std::string a = lines[sim::ch(n)] + "\n", b = lines[sim::ch(n)] + "\n", c;
      size_t i = 0, j = 0;
      while (i < a.size() || j < b.size()) {
        size_t m = 1 + sim::ch(32);
        std::string &x = sim::ch(2) ? a : b;
        size_t &xi = &x == &a ? i : j;
        if (xi >= x.size()) { c += (&x == &a ? b.substr(j) : a.substr(i)); break; }
        c += x.substr(xi, m);
        xi += m;
      }
      file += c;
      story += " interleaved";
      break;
    }
    case 7: { // a single character is lost; structure is hit more often than in a long block
      if (L) file.erase(p, 1);
      story += " lost-byte";
      break;
    }
    default: {
      size_t r = L ? sim::ch(L) : 0;
      std::string blk = file.substr(r, q + 1);
      file.insert(p, blk);
      story += " misplaced-block";
    }
    }
    sim::fault_mark(sim::F_CORRUPT);
  }
  std::vector<std::string> got;
  for (size_t s = 0; s < file.size();) {
    size_t e = file.find('\n', s);
    if (e == std::string::npos) e = file.size();
    got.push_back(file.substr(s, e - s));
    s = e + 1;
  }
  sim::describe("%d variables%s%s; read %zu lines", n, story.empty() ? "" : ", storage:", story.c_str(), got.size());
  if (mem) w.rules.push_back({sim::F_ALLOC, sim::ch(60), 1 + sim::ch(2), 0});
  int intact = 0, rejected = 0, odd = 0;
  sim::begin(w);
  {
    // the same objects receive all lines, as a reader of a file does
    auto v = std::make_unique<Variable<Tv>>();
    auto l = std::make_unique<Lists>();
    for (auto &line : got) {
      uint64_t f0 = sim::fault_fired(sim::F_ALLOC);
      auto o = sim::sut([&] { Variable<Tv>::Parse(line, *v, l->s, l->d); });
      bool faulted = sim::fault_fired(sim::F_ALLOC) != f0;
      int which = -1;
      for (int i = 0; i < n; i++)
        if (lines[i] == line) which = i;
      if (!o.ok) {
        rejected++;
        if (!known_error(o)) sim::violate("foreign-error", "reading \"%s\" ends with %s: %s", printable(line).c_str(), o.kind.c_str(), o.what.c_str());
        if (which >= 0 && !faulted)
          sim::violate("text-refused", "the text \"%s\" that was written by the library is rejected: %s", printable(line).c_str(), o.what.c_str());
        continue;
      }
      if (which >= 0) {
        intact++;
        std::string d;
        { sim::Harness h; d = plain_diff(orig[which], plain(*v, *l)); }
        if (!d.empty()) sim::violate("other-variable", "the text \"%s\" is read as a variable with a different %s", printable(line).c_str(), d.c_str());
        continue;
      }
      odd++; // damaged, but accepted: it must be a well-formed variable
      std::string t1, t2;
      auto v2 = std::make_unique<Variable<Tv>>();
      auto l2 = std::make_unique<Lists>();
      f0 = sim::fault_fired(sim::F_ALLOC);
      auto o1 = sim::sut([&] { t1 = v->ToString(); });
      auto o2 = o1.ok ? sim::sut([&] { Variable<Tv>::Parse(t1, *v2, l2->s, l2->d); t2 = v2->ToString(); }) : o1;
      bool f1 = sim::fault_fired(sim::F_ALLOC) != f0;
      if (!o2.ok && !f1) sim::violate("malformed-variable", "\"%s\" is accepted, but the variable is not well-formed: %s", printable(line).c_str(), o2.what.c_str());
      if (o2.ok && t1 != t2)
        sim::violate("malformed-variable", "\"%s\" is accepted, but the variable changes when it is written (\"%s\") and read again (\"%s\")", printable(line).c_str(), printable(t1).c_str(), printable(t2).c_str());
      // the usual operations end (a date may leave the calendar, which is an error)
      sim::sut([&] {
        auto e = v->GetEndFrequency();
        auto c = v->StartFrequency->Clone();
        c->Next(3);
        c->Next(-5);
        c->Minus(*v->StartFrequency);
        e->CompareTo(*v->StartFrequency);
        (void)e->ToString();
      });
      auto o3 = sim::sut([&] {
        auto c = v->StartFrequency->Clone();
        if (c->CompareTo(*v->StartFrequency) != 0) throw std::logic_error("a start date differs from itself");
        if (c->Minus(*v->StartFrequency) != 0) throw std::logic_error("the distance of a start date to itself is not zero");
      });
      if (!o3.ok && !mem) sim::violate("malformed-variable", "\"%s\" is accepted, but %s", printable(line).c_str(), o3.what.c_str());
    }
    v.reset();
    l.reset();
  }
  sim::clear_rules();
  sim::end(true);
  sim::observe(intact * 10000 + rejected * 100 + odd);
  sim::observe_s(file);
  if (intact + rejected + odd > 0) sim::nontrivial();
  if (odd) sim::probe("damaged text accepted as a well-formed variable", odd);
  if (rejected) sim::probe("damaged text rejected", rejected);
  if (intact) sim::probe("text read back", intact);
  sim::state_key(std::hash<std::string>()(story) ^ (uint64_t)(odd * 7 + rejected));
}

// ------------------------------------------------------------------ P16
namespace {
struct Bad { // misbehaviour of the objective; a deterministic function of the point, or of the number of the evaluation
  int region = 0;      // 0 none 1 half-space 2 stripes 3 ball around the start 4 outside a ball
  double dir[4], off = 0, val = NAN;
  bool badgrad = false, badhess = false;
  std::vector<std::pair<int, int>> at; // evaluation number -> 1 NaN, 2 +inf, 3 exception, 4 exception of another type
};
struct Eval {
  double x[4], v;
};
struct Obj {
  int n = 1, shape = 0;
  double c[4], a[4], b = 0, start[4];
  Bad bad;
  int evals = 0, grads = 0, thrown = 0;
  bool misbehaved = false, timed = false;
  std::vector<Eval> hist;
  std::function<void()> inner;
  double plain_value(const double *x) const {
    double s = 0;
    for (int i = 0; i < n; i++) {
      double e = x[i] - c[i];
      s += a[i] * e * e;
      if (shape == 1) s += e * e * e * e;
      if (shape == 2) s += 0.3 * std::cos(3 * e);
      if (shape == 3 && i) s += 5 * (x[i] - x[i - 1] * x[i - 1]) * (x[i] - x[i - 1] * x[i - 1]);
      if (shape == 4) s = s - a[i] * e * e + std::log(1 + e * e); // not convex far away
    }
    return s + b;
  }
  void plain_grad(const double *x, double *g) const {
    for (int i = 0; i < n; i++) {
      double h = 1e-6 * (1 + std::fabs(x[i])), y[4];
      for (int j = 0; j < n; j++) y[j] = x[j];
      double e = x[i] - c[i];
      if (shape == 0) { g[i] = 2 * a[i] * e; continue; }
      y[i] = x[i] + h;
      double u = plain_value(y);
      y[i] = x[i] - h;
      g[i] = (u - plain_value(y)) / (2 * h);
    }
  }
  bool in_region(const double *x) const {
    double s = 0;
    for (int i = 0; i < n; i++)
      s += bad.region <= 2 ? bad.dir[i] * x[i] : (x[i] - start[i]) * (x[i] - start[i]);
    switch (bad.region) {
    case 1: return s > bad.off;
    case 2: return std::fabs(s * 3 - std::floor(s * 3)) < 0.15;
    case 3: return s < 0.04;
    case 4: return s > 2.25;
    }
    return false;
  }
  double value(const Matrix<Tv> &m) {
    double x[4] = {0, 0, 0, 0}, v;
    for (int i = 0; i < n; i++) x[i] = m.Data[i];
    if (inner) inner();
    sim::Harness h;
    int k = evals++;
    v = plain_value(x);
    if (in_region(x)) { v = bad.val; misbehaved = true; sim::fault_mark(sim::F_SCRIPT); }
    for (auto &p : bad.at)
      if (p.first == k) {
        sim::fault_mark(sim::F_SCRIPT);
        misbehaved = true;
        timed = true;
        if (p.second == 1) v = NAN;
        else if (p.second == 2) v = INFINITY;
        else {
          thrown++;
          if (p.second == 3) throw LdtException(ErrorType::kLogic, "objective", "not available");
          throw std::string("objective is not available");
        }
      }
    Eval e;
    for (int i = 0; i < 4; i++) e.x[i] = x[i];
    e.v = v;
    hist.push_back(e);
    return v;
  }
  void gradient(const Matrix<Tv> &m, Matrix<Tv> &g) {
    double x[4], r[4];
    for (int i = 0; i < n; i++) x[i] = m.Data[i];
    plain_grad(x, r);
    grads++;
    if (bad.badgrad && in_region(x)) r[n - 1] = NAN, misbehaved = true;
    for (int i = 0; i < n; i++) g.Data[i] = r[i];
  }
  void hessian(const Matrix<Tv> &m, Matrix<Tv> &h) {
    double x[4], u[4], l[4];
    for (int i = 0; i < n; i++) x[i] = m.Data[i];
    for (int i = 0; i < n; i++) {
      double k = 1e-5, y = x[i];
      x[i] = y + k; plain_grad(x, u);
      x[i] = y - k; plain_grad(x, l);
      x[i] = y;
      for (int j = 0; j < n; j++) h.Data[i * n + j] = (u[j] - l[j]) / (2 * k);
    }
    for (int i = 0; i < n; i++)
      for (int j = 0; j < i; j++) h.Data[i * n + j] = h.Data[j * n + i] = (h.Data[i * n + j] + h.Data[j * n + i]) / 2;
    if (bad.badhess && in_region(x)) h.Data[0] = NAN, misbehaved = true;
  }
};
struct Problem {
  int method = 0; // 0 Nelder-Mead 1 univariate 2 Newton 3 L-BFGS
  Obj o;
  int maxit = 100;
  bool lo = false, up = false, line = true;
  double lower[4], upper[4], step = 0.1;
  int corr = 5;
};
struct Solution {
  sim::Outcome out;
  double x[4] = {0, 0, 0, 0}, v = NAN, diff = NAN;
  int iter = 0, task = 0;
};
Problem gen_problem(int method) {
  Problem p;
  p.method = method;
  sim::Rng g(sim::chseed());
  Obj &o = p.o;
  o.n = method == 1 ? 1 : 1 + (int)sim::ch(4);
  o.shape = (int)sim::ch(5);
  o.b = g.u(2) ? 10 * g.normal() : 0;
  for (int i = 0; i < 4; i++) {
    o.c[i] = g.normal();
    o.a[i] = 0.3 + 2 * g.real();
    o.start[i] = 2 * g.normal();
    double l = g.normal() - 1, u = l + 3 * g.real();
    p.lower[i] = l;
    p.upper[i] = u;
  }
  p.lo = sim::ch(2);
  p.up = sim::ch(2);
  if (method == 2) p.lo = p.up = false;
  p.maxit = sim::ch(3) == 0 ? 1 + (int)sim::ch(12) : method == 0 ? 1000 : 200;
  if (method == 0 || method == 2) p.maxit -= sim::ch(20) == 0 ? p.maxit : 0;
  p.line = sim::ch(4) != 0;
  p.step = 0.05 + g.real();
  p.corr = 1 + (int)sim::ch(6);
  Bad &b = o.bad;
  if (sim::ch(3)) {
    b.region = (int)sim::ch(5);
    for (double &d : b.dir) d = g.normal();
    b.off = g.normal();
    b.val = sim::ch(2) ? NAN : sim::ch(3) ? INFINITY : -INFINITY;
    if (sim::ch(6) == 0) b.badgrad = true;
    if (sim::ch(6) == 0) b.badhess = true;
  }
  for (int k = sim::ch(2) ? 0 : (int)sim::ch(3); k > 0; k--) {
    int at = sim::ch(2) ? (int)sim::ch(6) : (int)sim::ch(80);
    b.at.push_back({at, 1 + (int)sim::ch(4)});
  }
  return p;
}
struct Opt { // the optimisation objects and their buffers, which can be used again
  Problem *p = nullptr;
  NelderMead *nm = nullptr;
  Newton *nt = nullptr;
  LimitedMemoryBFGSB *lb = nullptr;
  double *work = nullptr, *storage = nullptr;
  int dim;
  explicit Opt(int method, int n, int corr) : dim(n) {
    long w = 0, s = 0;
    if (method == 0) nm = new NelderMead(n), w = nm->WorkSize, s = nm->StorageSize;
    if (method == 2) nt = new Newton(n), w = nt->WorkSize, s = nt->StorageSize;
    if (method == 3) lb = new LimitedMemoryBFGSB(n, corr), w = lb->WorkSize, s = lb->StorageSize;
    work = (double *)sim::arena_new(8 * std::max(1L, w), sim::FILL_BIG, 7, "work");
    storage = (double *)sim::arena_new(8 * std::max(1L, s), sim::FILL_NAN, 9, "storage");
  }
  ~Opt() {
    delete nm;
    delete nt;
    delete lb;
    sim::arena_free(work);
    sim::arena_free(storage);
  }
  // runs in the thread of the caller, as code under test
  void run(Problem &p, Solution &r) {
    Obj &o = p.o;
    int n = o.n;
    double lo[4], up[4], x[4];
    for (int i = 0; i < 4; i++) lo[i] = p.lower[i], up[i] = p.upper[i], x[i] = o.start[i];
    Matrix<Tv> L(lo, n, 1), U(up, n, 1), X(x, n, 1);
    auto f = [&o](const Matrix<Tv> &m) { return o.value(m); };
    auto g = [&o](const Matrix<Tv> &m, Matrix<Tv> &q) { o.gradient(m, q); };
    auto h = [&o](const Matrix<Tv> &m, Matrix<Tv> &q) { o.hessian(m, q); };
    switch (p.method) {
    case 0:
      nm->MaxIteration = p.maxit;
      nm->Minimize(f, X, work, storage, p.lo ? &L : nullptr, p.up ? &U : nullptr);
      for (int i = 0; i < n; i++) r.x[i] = nm->Result.Data[i];
      r.v = nm->Min;
      r.iter = nm->Iter;
      r.diff = nm->Diff;
      break;
    case 1: {
      auto t = NelderMead::Minimize1(
          [&o](const Tv &z) {
            double q = z;
            Matrix<Tv> m(&q, 1, 1);
            return o.value(m);
          },
          o.start[0], p.step, p.maxit, 1e-6, p.lo ? lo[0] : NAN, p.up ? up[0] : NAN);
      r.x[0] = std::get<0>(t);
      r.iter = std::get<1>(t);
      break;
    }
    case 2:
      nt->IterationMax = p.maxit;
      nt->UseLineSearch = p.line;
      nt->Minimize(f, g, h, X, storage, work);
      for (int i = 0; i < n; i++) r.x[i] = x[i];
      r.v = nt->FunctionValue;
      r.iter = nt->Iteration;
      break;
    default:
      lb->Options.IterationMax = p.maxit;
      lb->Minimize(f, g, X, storage, work, p.lo ? &L : nullptr, p.up ? &U : nullptr);
      for (int i = 0; i < n; i++) r.x[i] = x[i];
      r.v = lb->FunctionValue;
      r.iter = lb->Iteration;
      r.task = lb->Task;
    }
  }
};
const char *mname[] = {"simplex search", "univariate search", "Newton", "bounded quasi-Newton"};
std::string pdesc(const Problem &p) {
  char q[300];
  static const char *rn[] = {"", " half-space", " stripes", " around the start", " far from the start"};
  int l = snprintf(q, sizeof q, "%s%s dimension %d shape %d limit %d%s%s%s%s", mname[p.method], p.method == 2 && !p.line ? " without line search" : "", p.o.n, p.o.shape, p.maxit,
                   p.lo ? " lower" : "", p.up ? " upper" : "", p.o.bad.region ? (std::isnan(p.o.bad.val) ? ", missing in" : p.o.bad.val > 0 ? ", inf in" : ", -inf in") : "", rn[p.o.bad.region]);
  for (auto &a : p.o.bad.at) l += snprintf(q + l, sizeof q - l, ", %s at evaluation %d", a.second == 1 ? "missing" : a.second == 2 ? "inf" : "exception", a.first);
  return q;
}
void check_solution(Problem &p, const Solution &r, const char *ctx) {
  Obj &o = p.o;
  std::string D = pdesc(p) + ctx;
  const char *d = D.c_str();
  long budget = p.method == 0 ? (o.n + 1) + (long)p.maxit * (o.n + 3) : p.method == 1 ? 3L * p.maxit : p.method == 2 ? 1 + 100L * p.maxit : p.maxit + 1L;
  if (o.evals > budget) sim::violate("budget-exceeded", "%s: %d evaluations with a limit of %d iterations", d, o.evals, p.maxit);
  if (!r.out.ok) {
    // an error: from the objective, or from the library because the objective misbehaved or the problem is not convex
    if (r.out.kind == "unknown") sim::violate("lost-error", "%s: ends with an unknown error", d);
    if (!o.misbehaved && (p.method == 0 || p.method == 1 || (o.shape == 0 && p.method >= 2 && (p.method != 2 || p.line))))
      if (!(p.lo && p.up && false)) sim::violate("search-refused", "%s: ends with %s although the objective is well-behaved", d, r.out.what.c_str());
    return;
  }
  if (o.thrown && p.method != 0) sim::violate("swallowed-exception", "%s: an exception of the objective is lost, and x=%g is reported", d, r.x[0]);
  if (p.method == 0 && r.iter > p.maxit) sim::violate("budget-exceeded", "%s: %d iterations with a limit of %d", d, r.iter, p.maxit);
  if (p.method == 0 && r.iter < p.maxit && !(r.diff < 1e-6)) sim::violate("wrong-convergence", "%s: ended at iteration %d of %d with a difference of %g", d, r.iter, p.maxit, r.diff);
  // the reported value was returned at the reported point
  double pen = 0, clamp[4];
  for (int i = 0; i < o.n; i++) {
    if (p.lo && r.x[i] < p.lower[i]) pen += (p.lower[i] - r.x[i]) * (p.lower[i] - r.x[i]);
    if (p.up && r.x[i] > p.upper[i]) pen += (p.upper[i] - r.x[i]) * (p.upper[i] - r.x[i]);
    clamp[i] = o.start[i];
    if (p.lo && clamp[i] < p.lower[i]) clamp[i] = p.lower[i];
    if (p.up && clamp[i] > p.upper[i]) clamp[i] = p.upper[i];
    if (p.method == 1 || p.method == 3) {
      double tol = p.method == 3 ? 1e-10 * (1 + std::fabs(r.x[i])) : 0;
      if ((p.lo && r.x[i] < p.lower[i] - tol) || (p.up && r.x[i] > p.upper[i] + tol))
        sim::violate("outside-bounds", "%s: %.17g is outside [%.17g, %.17g]", d, r.x[i], p.lo ? p.lower[i] : -INFINITY, p.up ? p.upper[i] : INFINITY);
    }
    if (!std::isfinite(r.x[i])) sim::violate("invalid-point", "%s: the reported point is %g", d, r.x[i]);
  }
  bool seen = false, match = false;
  double atx = NAN, first = NAN;
  bool hasfirst = false;
  for (auto &e : o.hist) {
    bool same = true, isstart = true;
    for (int i = 0; i < o.n; i++) {
      same = same && e.x[i] == r.x[i];
      isstart = isstart && e.x[i] == clamp[i];
    }
    if (same) {
      seen = true;
      atx = e.v;
      double want = p.method == 0 ? e.v + 10 * pen : e.v;
      if (p.method == 1 || r.v == want || std::fabs(r.v - want) <= 1e-12 * (1 + std::fabs(want))) match = true;
    }
    if (isstart && !hasfirst) hasfirst = true, first = e.v;
  }
  if (!seen) sim::violate("unevaluated-point", "%s: the reported point %.17g was never evaluated", d, r.x[0]);
  if (!match) sim::violate("wrong-minimum", "%s: %.17g is reported, the objective is %.17g at the reported point", d, r.v, atx);
  if (p.method == 1) {
    if (!o.timed && (std::isnan(atx) || atx == INFINITY)) sim::violate("missing-minimum", "%s: the objective is %g at the reported point", d, atx);
  } else if (std::isnan(r.v) || (r.v == INFINITY && p.method == 0)) sim::violate("missing-minimum", "%s: the reported minimum is %g", d, r.v);
  if (hasfirst && !std::isnan(first) && first != INFINITY && !(p.method == 2 && !p.line) && !(p.method == 1 && o.timed) && !(p.method == 0 && std::isinf(first))) {
    double got = p.method == 1 ? atx : r.v;
    if (got > first + 1e-12 * (1 + std::fabs(first))) sim::violate("worse-than-start", "%s: %.17g is reported, the start has %.17g (task %d)", d, got, first, r.task);
  }
  // progress: without misbehaviour, a convex separable problem is solved within a generous budget
  if (!o.misbehaved && o.shape == 0 && p.maxit >= 200 && !(p.lo && p.up && p.method == 0)) {
    bool ok = true;
    double opt = o.b;
    for (int i = 0; i < o.n; i++) {
      double z = o.c[i];
      if (p.lo && z < p.lower[i]) z = p.lower[i];
      if (p.up && z > p.upper[i]) z = p.upper[i];
      opt += o.a[i] * (z - o.c[i]) * (z - o.c[i]);
      if (p.method != 0 && std::fabs(r.x[i] - z) > (p.method == 1 ? 1e-3 : 2e-2)) ok = false;
    }
    if (p.method == 0 && !p.lo && !p.up && r.v > opt + 0.05) ok = false;
    if (!ok) sim::violate("no-progress", "%s: %.10g is reported, the minimum is %.10g (x=%.10g)", d, p.method == 1 ? atx : r.v, opt, r.x[0]);
    sim::probe("solved without faults");
  }
}
bool same_solution(const Solution &a, const Solution &b) {
  if (a.out.ok != b.out.ok || a.out.what != b.out.what) return false;
  if (!a.out.ok) return true;
  return memcmp(a.x, b.x, sizeof a.x) == 0 && memcmp(&a.v, &b.v, 8) == 0 && a.iter == b.iter;
}
} // namespace
SCENARIO("P16", p16_optimisers, 1) {
  int mode = (int)sim::ch(4); // 0 once 1 repeated on one object 2 nested 3 on threads
  Problem p = gen_problem((int)sim::ch(4)), q = gen_problem((int)sim::ch(4));
  if (mode == 1) { // the second use of the object has another objective, and at most the same dimension
    q.method = p.method;
    q.o.n = std::min(q.o.n, p.o.n);
    if (p.method == 1) q.o.n = 1;
    if (p.method == 2) q.lo = q.up = false;
  }
  if (q.method == 1) q.o.n = 1;
  if (q.method == 2) q.lo = q.up = false;
  if (q.method == 1 || q.method == 3) q.maxit = std::max(1, q.maxit); // no search without any evaluation
  sim::World w = sim::gen_world(2);
  w.oob_fatal = w.leak_fatal = w.race_fatal = true;
  static const char *mn[] = {"", ", then another problem with the same object", ", nested in another objective", ", two threads"};
  sim::describe("%s%s", pdesc(p).c_str(), mn[mode]);
  Solution rp, rq, alone;
  auto solve = [&](Problem &x, Solution &r, Opt &k) { r.out = sim::sut([&] { k.run(x, r); }); };
  auto clean = [](const Problem &x) { Problem y = x; y.o.hist.clear(); y.o.evals = y.o.grads = y.o.thrown = 0; y.o.misbehaved = y.o.timed = false; y.o.inner = nullptr; return y; };
  if (mode) { // the same problem alone, as reference
    Problem z = clean(mode == 1 ? q : p);
    sim::World w0 = w;
    sim::begin(w0);
    {
      Opt k(z.method, mode == 1 ? p.o.n : z.o.n, mode == 1 ? p.corr : z.corr);
      solve(z, alone, k);
    }
    sim::end(true);
    check_solution(z, alone, "");
  }
  sim::begin(w);
  {
    Opt k(p.method, p.o.n, p.corr), k2(q.method, q.o.n, q.corr);
    if (mode <= 1) {
      solve(p, rp, k);
      if (mode == 1) solve(q, rq, k);
    } else if (mode == 2) {
      int left = 3;
      p.o.inner = [&] {
        if (left <= 0) return;
        left--;
        Problem z;
        { sim::Harness h; z = clean(q); }
        Solution s;
        try {
          k2.run(z, s);
        } catch (...) {
        }
        { sim::Harness h; z = Problem(); }
      };
      solve(p, rp, k);
      p.o.inner = nullptr;
    } else {
      auto o = sim::sut_threads({[&] { k.run(p, rp); }, [&] { k2.run(q, rq); }});
      rp.out = o[0];
      rq.out = o[1];
    }
  }
  sim::end(true);
  check_solution(p, rp, mn[mode]);
  if (mode == 1 || mode == 3) check_solution(q, rq, mode == 1 ? ", after another problem" : ", two threads");
  const Solution &c = mode == 1 ? rq : rp;
  if (mode && !same_solution(c, alone))
    sim::violate("disturbed-search", "%s%s: %s x=%.17g value=%.17g iterations=%d; alone: %s x=%.17g value=%.17g iterations=%d", pdesc(mode == 1 ? q : p).c_str(), mn[mode],
                 c.out.ok ? "ok" : c.out.what.c_str(), c.x[0], c.v, c.iter, alone.out.ok ? "ok" : alone.out.what.c_str(), alone.x[0], alone.v, alone.iter);
  sim::observe_d(rp.v);
  sim::observe_d(rp.x[0]);
  sim::observe(rp.iter);
  if (p.o.misbehaved) sim::nontrivial();
  if (p.o.misbehaved && rp.out.ok) sim::probe("a minimum in spite of misbehaviour");
  if (p.o.misbehaved && !rp.out.ok) sim::probe("misbehaviour reported");
  sim::state_key(p.method * 1000 + p.o.shape * 100 + mode * 20 + p.o.bad.region * 3 + rp.out.ok);
}

// The C interface (P17): programs of calls on one or several simulated threads, with and without memory.
#include "api.h"
#include "ops.h"
#include "variable.h"
#include <algorithm>
using namespace ldt;

namespace {
using boost::gregorian::date;
struct Family { // a frequency with the text that creates it; 'base' and its lists belong to the harness
  std::string text, cls;
  int fclass = 0;
  std::unique_ptr<Frequency> base;
  std::vector<std::string> ls;
  std::vector<date> ld;
};
std::string item(sim::Rng &g) {
  static const std::string a = "abcXYZ019 _-.";
  std::string s = "i";
  for (int i = (int)g.u(g.u(4) ? 6 : 40); i > 0; i--) s += a[g.u(a.size())];
  return s;
}
void gen_family(Family &f, uint64_t seed) {
  sim::Rng g(seed);
  auto day = date(1900 + g.u(200), 1 + g.u(12), 1 + g.u(28));
  int k = 1 + (int)g.u(12), z = 1 + (int)g.u(6), year = 1900 + (int)g.u(200);
  DayOfWeekRange range((DayOfWeek)g.u(7), (DayOfWeek)g.u(7));
  auto wk = [&](int c) -> std::unique_ptr<FrequencyWeekBased> {
    switch (c) {
    case 0: return FrequencyWeekBased::Weekly(day);
    case 1: return FrequencyWeekBased::MultiWeekly(day, k);
    case 2: return FrequencyWeekBased::Daily(day);
    case 3: return FrequencyWeekBased::MultiDaily(day, k);
    default: return FrequencyWeekBased::DailyInWeek(day, range, g.u(2));
    }
  };
  switch (g.u(16)) {
  case 0: f.base = FrequencyCrossSection((int)g.u(50)).Clone(); break;
  case 1: f.base = FrequencyYearBased::Yearly(year); break;
  case 2: f.base = FrequencyYearBased::Quarterly(year, 1 + g.u(4)); break;
  case 3: f.base = FrequencyYearBased::Monthly(year, 1 + g.u(12)); break;
  case 4: f.base = FrequencyYearBased::XTimesAYear(year, k, 1 + g.u(k)); break;
  case 5: f.base = FrequencyYearBased::MultiYearly(year, z); break;
  case 6: f.base = wk(0); break;
  case 7: f.base = wk((int)g.u(5)); break;
  case 8: f.base = wk(2); break;
  case 9: f.base = FrequencyDayBased::Hourly(*wk(2), 1 + g.u(24)); break;
  case 10: f.base = FrequencyDayBased::XTimesADay(*wk((int)g.u(5)), k, 1 + g.u(k)); break;
  case 11: case 12: case 13: {
    int n = 1 + (int)g.u(9), at = (int)g.u(n);
    for (int i = 0; i < n; i++) f.ls.push_back(item(g) + std::to_string(i));
    f.base = std::make_unique<FrequencyList<std::string>>(f.ls.at(at), &f.ls);
    break;
  }
  default: {
    int n = 1 + (int)g.u(9), at = (int)g.u(n);
    for (int i = 0; i < n; i++) f.ld.push_back(day + boost::gregorian::days(100 * i + (int)g.u(50)));
    f.base = std::make_unique<FrequencyList<date>>(f.ld.at(at), &f.ld);
  }
  }
  f.text = f.base->ToString();
  f.cls = f.base->ToClassString(true);
  f.fclass = (int)f.base->mClass;
}
std::unique_ptr<Frequency> at(const Family &f, int k) {
  auto c = f.base->Clone();
  c->Next(k);
  return c;
}
std::string text_at(const Family &f, int k) { return at(f, k)->ToString(); }

enum { CREATE, DAMAGED, COPY, NEXT, TEXT, TEXT0, MINUS, DISPOSE, PROPERTY, QUANTILES, TABLES, COMBINE, CRPS, TEST, ASK, NCALLS };
struct Call {
  int op, a, b, n;
  uint64_t seed;
};
struct Slot {
  Frequency *f = nullptr;
  int fam = -1, pos = 0;
  bool known = true; // position known (no move of it failed)
};
struct Ctx { // one caller: its own handles and its own view of the last error
  int id;
  std::vector<Family> *fams;
  std::vector<Call> prog;
  Slot s[4];
  std::string last; // what the last call reported to this caller
  std::string log;  // outcomes, compared with the same program alone
  int calls = 0, failed = 0, faulted = 0;
  bool faults;
};
#define API(x) [&] { sim::Sut in_; return x; }()
std::string ask(Ctx &c) {
  char *buf;
  { buf = (char *)sim::arena_new(2048, sim::FILL_ONES, 1, "message buffer"); }
  API(LDT_GetLastError(buf));
  std::string m(buf, strnlen(buf, 2048));
  sim::arena_free(buf);
  return m;
}
bool had_fault(uint64_t f0) { return sim::fault_fired(sim::F_ALLOC) != f0; }
// the report after a call: nothing if it worked, a message if it did not
void report(Ctx &c, const char *what, bool failed, bool expected_failure, bool faulted) {
  std::string m = ask(c);
  c.calls++;
  if (failed) c.failed++;
  if (failed && m.empty()) sim::violate("no-message", "thread %d: %s failed without a message", c.id, what);
  if (!failed && !m.empty()) sim::violate("foreign-message", "thread %d: %s worked, but its caller is told \"%s\"", c.id, what, m.c_str());
  if (failed && !expected_failure && !faulted) sim::violate("call-failed", "thread %d: %s failed: %s", c.id, what, m.c_str());
  if (!failed && expected_failure) sim::violate("failure-hidden", "thread %d: %s worked, although it cannot", c.id, what);
  if (failed && faulted && !expected_failure) c.faulted++;
  c.last = m;
  if (!c.faults) {
    c.log += what;
    c.log += failed ? "!" + m + "\n" : "\n";
  }
}
// text of a handle through the interface, with the negotiation of the length
bool text_of(Ctx &c, Slot &s, bool both, int guess, bool &failed, std::string &t, std::string &cl, bool &faulted) {
  int len = guess, fc = -1;
  for (int round = 0; round < 2; round++) {
    char *a, *b;
    uint64_t f0 = sim::fault_fired(sim::F_ALLOC);
    int have = len;
    { a = (char *)sim::arena_new(std::max(1, have), sim::FILL_ONES, 1, "text buffer"); b = (char *)sim::arena_new(std::max(1, have), sim::FILL_ONES, 1, "class text buffer"); }
    if (both) API(LDT_FrequencyToString(s.f, a, b, fc, len));
    else API(LDT_FrequencyToString0(s.f, a, len));
    faulted = had_fault(f0);
    std::string m = ask(c);
      failed = !m.empty();
    if (failed || len <= have) {
      if (!failed) {
        if (!memchr(a, 0, std::max(1, have)) || (both && !memchr(b, 0, std::max(1, have)))) sim::violate("text-unfinished", "thread %d: the text of a frequency has no end", c.id);
        t = a;
        if (both) cl = b;
        if (both && fc != (*c.fams)[s.fam].fclass) sim::violate("other-class", "thread %d: a frequency of class %d reports class %d", c.id, (*c.fams)[s.fam].fclass, fc);
      }
      sim::arena_free(a);
      sim::arena_free(b);
      c.last = m;
      return true;
    }
    sim::arena_free(a);
    sim::arena_free(b);
  }
  return false;
}
void check_text(Ctx &c, Slot &s, const char *what) {
  bool failed, faulted;
  std::string t, cl;
  if (!text_of(c, s, true, 4096, failed, t, cl, faulted)) sim::violate("length", "thread %d: the text of a frequency never fits", c.id);
  if (failed) {
    if (!faulted && s.known) sim::violate("call-failed", "thread %d: the text of a frequency failed: %s", c.id, c.last.c_str());
    return;
  }
  Family &f = (*c.fams)[s.fam];
  if (cl != f.cls) sim::violate("handle-changed", "thread %d, %s: the class of a frequency is \"%s\" instead of \"%s\"", c.id, what, cl.c_str(), f.cls.c_str());
  if (s.known && t != text_at(f, s.pos))
    sim::violate("handle-changed", "thread %d, %s: a frequency is \"%s\" instead of \"%s\"", c.id, what, t.c_str(), text_at(f, s.pos).c_str());
}
void drop(Ctx &c, Slot &s) {
  if (!s.f) return;
  API(LDT_DisposeFrequency(s.f));
  report(c, "dispose", !ask(c).empty(), false, false);
  s = Slot();
}
const char *opname[] = {"create", "create from damaged text", "copy", "next", "text", "short text", "minus", "dispose", "distribution property", "quantiles",
                        "combination of tables", "combination of variables", "crps", "test error", "last error"};

void run_call(Ctx &c, const Call &k) {
  sim::Rng g(k.seed);
  std::vector<Family> &F = *c.fams;
  Slot &a = c.s[k.a], &b = c.s[k.b];
  uint64_t f0 = sim::fault_fired(sim::F_ALLOC);
  switch (k.op) {
  case CREATE: {
    if (a.f) drop(c, a);
    Family &f = F[k.n % F.size()];
    int fc = -1;
    f0 = sim::fault_fired(sim::F_ALLOC);
    Frequency *r = API(LDT_FrequencyCreate(f.text.c_str(), f.cls.c_str(), fc));
    report(c, "create", !r, false, had_fault(f0));
    if (r) {
          a.f = r;
      a.fam = k.n % F.size();
      a.pos = 0;
      a.known = true;
      if (fc != f.fclass) sim::violate("other-class", "thread %d: a frequency of class %d is created with class %d", c.id, f.fclass, fc);
    }
    if (a.f) check_text(c, a, "after create");
    break;
  }
  case DAMAGED: { // never a crash; what it accepts can be used and disposed
    std::string t, cl;
    bool ok = true;
    {
          Family &f = F[k.n % F.size()];
      t = f.text;
      cl = f.cls;
      std::string &x = g.u(2) ? t : cl;
      size_t p = x.empty() ? 0 : g.u(x.size());
      switch (g.u(4)) {
      case 0: x = x.substr(0, p); break;
      case 1: if (!x.empty()) x.erase(p, 1); break;
      case 2: if (!x.empty()) x[p] = "09:;|-xLl\xff"[g.u(10)]; break;
      default: x.insert(p, "7"); break;
      }
      try {
        FrequencyClass fc;
        std::vector<std::string> ls;
        std::vector<date> ld;
        auto r = Frequency::Parse(t, cl, fc);
        if (fc == FrequencyClass::kListString) FrequencyList<std::string>::Parse0(t, cl, fc, dynamic_cast<FrequencyList<std::string> &>(*r), &ls);
        if (fc == FrequencyClass::kListDate) FrequencyList<date>::Parse0(t, cl, fc, dynamic_cast<FrequencyList<date> &>(*r), &ld);
      } catch (...) {
        ok = false;
      }
    }
    int fc = -1;
    Frequency *r = API(LDT_FrequencyCreate(t.c_str(), cl.c_str(), fc));
    report(c, "create from damaged text", !r, !ok, had_fault(f0));
    if (r) {
      API(LDT_DisposeFrequency(r));
      report(c, "dispose", !ask(c).empty(), false, false);
    }
    break;
  }
  case COPY: {
    if (!a.f || &a == &b) return;
    drop(c, b);
    f0 = sim::fault_fired(sim::F_ALLOC);
    Frequency *r = API(LDT_FrequencyCopy(a.f));
    report(c, "copy", !r, false, had_fault(f0));
    if (r) {
      { b = a; b.f = r; if (r == a.f) sim::violate("same-handle", "thread %d: a copy is the object itself", c.id); }
      check_text(c, b, "after copy");
    }
    check_text(c, a, "after being copied");
    break;
  }
  case NEXT: {
    if (!a.f) return;
    int n = (int)g.u(13) - 6;
    bool ok = true;
    if (std::abs(a.pos) < 1000 && g.u(25) == 0) n = g.u(2) ? 1000000000 : -1000000000;
    {
          if (std::abs(n) > 1000 && F[a.fam].ls.empty() && F[a.fam].ld.empty() && F[a.fam].fclass != (int)FrequencyClass::kDaily) n = 1 + n % 7; // leaving the calendar: days only
      try { if (a.known) { at(F[a.fam], a.pos + n); auto x = at(F[a.fam], a.pos); x->Next(n); } } catch (...) { ok = false; }
    }
    API(LDT_FrequencyNext(a.f, n));
    std::string m = ask(c);
    bool failed = !m.empty();
    if (a.known) report(c, "next", failed, !ok, had_fault(f0));
    if (failed || (std::abs(n) > 1000 && F[a.fam].ls.empty() && F[a.fam].ld.empty())) a.known = false; // a day outside the calendar
    else a.pos += n;
    if (a.known) check_text(c, a, "after next");
    break;
  }
  case TEXT: case TEXT0: {
    if (!a.f || !a.known) return;
    bool failed, faulted, both = k.op == TEXT;
    std::string t, cl;
    if (!text_of(c, a, both, (int)g.u(50), failed, t, cl, faulted)) sim::violate("length", "thread %d: the text of a frequency needs more room than it asked for", c.id);
    report(c, both ? "text" : "short text", failed, false, faulted);
      Family &f = F[a.fam];
    if (!failed && (t != text_at(f, a.pos) || (both && cl != f.cls)))
      sim::violate("other-text", "thread %d: a frequency is written as \"%s\" (%s) instead of \"%s\" (%s)", c.id, t.c_str(), cl.c_str(), text_at(f, a.pos).c_str(), f.cls.c_str());
    break;
  }
  case MINUS: {
    if (!a.f || !b.f || !a.known || !b.known) return;
    bool ok = true;
    int e = -1;
    { try { e = at(F[a.fam], a.pos)->Minus(*at(F[b.fam], b.pos)); } catch (...) { ok = false; } }
    int r = API(LDT_FrequencyMinus(a.f, b.f));
    report(c, "minus", !ask(c).empty(), !ok, had_fault(f0));
      bool failed = !c.last.empty();
    if (failed && r != -1) sim::violate("failure-value", "thread %d: a failed distance is %d", c.id, r);
    if (!failed && r != e) sim::violate("other-value", "thread %d: the distance of two frequencies is %d instead of %d", c.id, r, e);
    if (!failed && a.fam == b.fam && r != a.pos - b.pos)
      sim::violate("other-value", "thread %d: %d and %d steps after \"%s\" (%s) are %d apart", c.id, a.pos, b.pos, F[a.fam].text.c_str(), F[a.fam].cls.c_str(), r);
    break;
  }
  case DISPOSE: drop(c, a); break;
  case PROPERTY: case QUANTILES: {
    static const char dt[] = "nluctefgbkoisraZ", pt[] = "mvswknxaoZ";
    int d = dt[g.u(16)], p = pt[g.u(10)];
    double q[4];
    for (auto &x : q) x = g.u(10) == 0 ? -g.real() : 0.1 + 4 * g.real();
    if (d == 'u' || d == 'o') q[1] = q[0] + 1 + g.u(5);
    if (d == 'i' || d == 'r' || d == 'a') q[0] = g.real();
    if (d == 'o') { q[0] = std::floor(q[0]); q[1] = std::floor(q[1]) + 1; }
    if (d == 'a') { q[0] = 0.2 + 0.6 * g.real(); q[1] = 1 + g.u(6); }
    bool ok = true;
    double probs[3], e[3];
    for (auto &x : probs) x = g.u(8) == 0 ? 1.5 : g.real();
    int np = 1 + (int)g.u(3);
    {
          try {
        auto D = DistributionBase::GetDistributionFromType((DistributionType)d, q[0], q[1], q[2], q[3]);
        if (k.op == PROPERTY) e[0] = D->GetProperty((DistributionProperty)p);
        else
          for (int i = 0; i < np; i++) e[i] = D->GetQuantile(probs[i]);
      } catch (...) {
        ok = false;
      }
    }
    if (k.op == PROPERTY) {
      double r = API(LDT_GetDistributionProperty(d, p, q[0], q[1], q[2], q[3]));
      report(c, "distribution property", !ask(c).empty(), !ok, had_fault(f0));
          if (!ops::same_bits(r, c.last.empty() ? e[0] : NAN))
        sim::violate("other-value", "thread %d: property '%c' of distribution '%c' is %.17g instead of %.17g (%s)", c.id, p, d, r, e[0], c.last.c_str());
    } else {
      double *pr, *r;
      { pr = (double *)sim::arena_new(np * 8, sim::FILL_ZERO, 1, "probabilities"); r = (double *)sim::arena_new(np * 8, sim::FILL_NAN, 1, "quantiles"); memcpy(pr, probs, np * 8); }
      f0 = sim::fault_fired(sim::F_ALLOC);
      API(LDT_GetDistributionQuantiles(d, pr, np, r, q[0], q[1], q[2], q[3]));
      report(c, "quantiles", !ask(c).empty(), !ok, had_fault(f0));
          for (int i = 0; i < np && c.last.empty(); i++)
        if (!ops::same_bits(r[i], e[i])) sim::violate("other-value", "thread %d: a quantile of distribution '%c' is %.17g instead of %.17g", c.id, d, r[i], e[i]);
      sim::arena_free(pr);
      sim::arena_free(r);
    }
    break;
  }
  case TABLES: { // a handle of tables: made, filled, used, deleted
    int n = (int)g.u(3);
    bool wt = g.u(2);
    ops::Arr t(103, std::max(1, n));
    std::vector<double> w, e(103);
    bool ok = true;
    double *res;
    {
          double s = 0;
      for (int j = 0; j < n; j++) {
        double q = g.normal() - 3, sd = 0.5 + g.real();
        for (int i = 0; i < 103; i++) t(i, j) = q += sd * 0.08 * (0.2 + g.real());
        w.push_back(0.2 + g.real());
        s += w.back();
      }
      for (auto &x : w) x /= s;
      w.push_back(0);
      res = (double *)sim::arena_new(103 * 8, sim::FILL_NAN, 1, "combined table");
      try {
        std::vector<DistributionEmpirical103> v;
        for (int j = 0; j < n; j++) v.push_back(DistributionEmpirical103(&t.d[103 * j]));
        DistributionEmpirical103::Combine(v, wt ? w.data() : nullptr, e.data());
      } catch (...) {
        ok = false;
      }
    }
    f0 = sim::fault_fired(sim::F_ALLOC);
    auto *hnd = API(LDT_CombineDistribution103(nullptr, nullptr, nullptr, nullptr));
    report(c, "new list of tables", !hnd, false, had_fault(f0));
    if (hnd) {
      bool all = true;
      for (int j = 0; j < n; j++) {
        f0 = sim::fault_fired(sim::F_ALLOC);
        API(LDT_CombineDistribution103(hnd, &t.d[103 * j], nullptr, nullptr));
        report(c, "add a table", !ask(c).empty(), false, had_fault(f0));
        if (!c.last.empty()) all = false;
      }
      if (all) {
        f0 = sim::fault_fired(sim::F_ALLOC);
        API(LDT_CombineDistribution103(hnd, nullptr, wt ? w.data() : nullptr, res));
        report(c, "combine tables", !ask(c).empty(), !ok, had_fault(f0));
              for (int i = 0; i < 103 && c.last.empty(); i++)
          if (!ops::same_bits(res[i], e[i])) sim::violate("other-value", "thread %d: quantile %d of the combined tables is %.17g instead of %.17g", c.id, i, res[i], e[i]);
      }
      API(LDT_CombineDistribution103(hnd, nullptr, nullptr, nullptr));
      report(c, "delete tables", !ask(c).empty(), false, false);
    }
      sim::arena_free(res);
    t = ops::Arr();
    w = std::vector<double>();
    e = std::vector<double>();
    break;
  }
  case COMBINE: { // two pieces of one variable
    if (!a.f || !b.f || !a.known || !b.known || &a == &b || a.fam != b.fam || std::abs(a.pos) > 1000 || std::abs(b.pos) > 1000) return;
    double *d[2], *r;
    int n[2], from[2], to[2];
    for (int i = 0; i < 2; i++) {
          n[i] = 1 + (int)g.u(8);
      d[i] = (double *)sim::arena_new(n[i] * 8, sim::FILL_ZERO, 1, "values");
      for (int j = 0; j < n[i]; j++) d[i][j] = g.u(4) == 0 ? NAN : 1 + g.real();
      from[i] = 0;
      to[i] = n[i];
      while (from[i] < n[i] && std::isnan(d[i][from[i]])) from[i]++;
      while (to[i] > from[i] && std::isnan(d[i][to[i] - 1])) to[i]--;
      if (from[i] == n[i]) { from[i] = 0; to[i] = n[i]; } // no value at all: kept as it is
    }
    int s0 = std::min(a.pos + from[0], b.pos + from[1]), e0 = std::max(a.pos + to[0], b.pos + to[1]), N = e0 - s0;
    int room = g.u(3) ? N : (int)g.u(N);
    int len = room;
    double md = -5;
    { r = (double *)sim::arena_new(std::max(1, room) * 8, sim::FILL_NAN, 1, "combined values"); }
    f0 = sim::fault_fired(sim::F_ALLOC);
    Frequency *f = API(LDT_VariableCombine(d[0], n[0], a.f, d[1], n[1], b.f, r, len, md));
    bool faulted = had_fault(f0);
    std::string m = ask(c);
    if (m.empty() && !f) { // asks for room
          if (len <= room) sim::violate("no-message", "thread %d: combining variables gives nothing", c.id);
      if (len != N) sim::violate("other-value", "thread %d: combining %d values at step %d and %d values at step %d of \"%s\" (%s) needs room for %d instead of %d", c.id, to[0] - from[0], a.pos + from[0], to[1] - from[1],
                                 b.pos + from[1], F[a.fam].text.c_str(), F[a.fam].cls.c_str(), len, N);
      c.last = m;
    } else {
      report(c, "combination of variables", !f, false, faulted);
      if (f) {
        {
                  if (len != N) sim::violate("other-value", "thread %d: %d combined values instead of %d", c.id, len, N);
          double dm = 0;
          for (int i = 0; i < N; i++) {
            int x = s0 + i - a.pos, y = s0 + i - b.pos;
            double u = x >= from[0] && x < to[0] ? d[0][x] : NAN, v = y >= from[1] && y < to[1] ? d[1][y] : NAN, z = std::isnan(v) ? u : v;
            if (!ops::same_bits(r[i], z)) sim::violate("other-value", "thread %d: combined value %d is %.17g instead of %.17g", c.id, i, r[i], z);
            if (!std::isnan(u) && !std::isnan(v)) dm = std::max(dm, std::fabs((u - v) / u) * 100);
          }
          if (!ops::same_bits(md, dm)) sim::violate("other-value", "thread %d: the largest difference is %.17g instead of %.17g", c.id, md, dm);
        }
        Slot t;
        t.f = f;
        t.fam = a.fam;
        t.pos = s0;
        check_text(c, t, "start of the combined variable");
        drop(c, t);
      }
      check_text(c, a, "after a combination");
      check_text(c, b, "after a combination");
    }
      sim::arena_free(d[0]);
    sim::arena_free(d[1]);
    sim::arena_free(r);
    break;
  }
  case CRPS: {
    double y = g.normal(), m = g.normal(), v = 0.1 + g.real(), e;
    bool lg = g.u(2);
    if (lg) y = std::fabs(y) + 0.1;
    { e = lg ? Scoring::GetScoreCrpsLogNormal(y, m, std::sqrt(v)) : Scoring::GetScoreCrpsNormal(y, m, std::sqrt(v)); }
    double r = lg ? API(LDT_GetScoreCrpsLogNormal(y, m, v)) : API(LDT_GetScoreCrpsNormal(y, m, v));
    report(c, "crps", !ask(c).empty(), false, had_fault(f0));
      if (c.last.empty() && !ops::same_bits(r, e)) sim::violate("other-value", "thread %d: the score is %.17g instead of %.17g", c.id, r, e);
    break;
  }
  case TEST:
    API(LDT_GetLastError_TEST());
    report(c, "test error", true, true, had_fault(f0));
    { if (c.last != "LDT ERROR TEST" && !c.faults) sim::violate("foreign-message", "thread %d: the message of the test error is \"%s\"", c.id, c.last.c_str()); }
    break;
  default: { // asking again gives the same answer
    std::string m = ask(c);
      if (m != c.last) sim::violate("foreign-message", "thread %d: the message of its last call is \"%s\", now \"%s\"", c.id, c.last.c_str(), m.c_str());
  }
  }
}
void run_program(Ctx &c) {
  sim::Harness h;
  for (auto &k : c.prog) {
    sim::yield_point();
    try {
      run_call(c, k);
    } catch (...) {
          sim::violate("escaped", "thread %d: an exception leaves the call \"%s\"", c.id, opname[k.op]);
    }
  }
  for (auto &s : c.s) drop(c, s);
}
} // namespace
SCENARIO("P17", p17_c_interface, 1) {
  int threads = 1 + (int)sim::ch(3), nf = 1 + (int)sim::ch(4);
  std::vector<uint64_t> seeds;
  for (int i = 0; i < nf; i++) seeds.push_back(sim::chseed());
  std::vector<Ctx> cs(threads), alone(threads);
  std::vector<Family> fams(nf);
  bool mem = sim::ch(3) == 0;
  std::string story;
  for (int t = 0; t < threads; t++) {
    int n = 4 + (int)sim::ch(20);
    for (int i = 0; i < n; i++) {
      Call k;
      k.op = i < 2 ? CREATE : (int)sim::ch(NCALLS);
      k.a = i < 2 ? i : (int)sim::ch(4);
      k.b = (int)sim::ch(4);
      k.n = i == 1 && sim::chance(0.6) ? cs[t].prog[0].n : (int)sim::ch(nf);
      k.seed = sim::chseed();
      cs[t].prog.push_back(k);
    }
    cs[t].id = t;
    cs[t].fams = &fams;
    cs[t].faults = false;
    alone[t] = cs[t];
  }
  sim::World w = sim::gen_world(4);
  w.race_fatal = w.oob_fatal = w.leak_fatal = true;
  for (int i = 0; i < nf; i++) {
    try {
      gen_family(fams[i], seeds[i]);
    } catch (...) {
      sim::discard("no such frequency");
    }
    story += " " + fams[i].cls.substr(0, 2);
  }
  sim::describe("%d callers, %zu calls, frequencies%s%s", threads, cs[0].prog.size(), story.c_str(), mem ? ", memory requests fail" : "");
  { // each program alone
    sim::World w0 = w;
    for (int t = 0; t < threads; t++) {
      sim::begin(w0);
      auto o = sim::sut([&] { run_program(alone[t]); });
      sim::end(true);
      if (!o.ok) sim::violate("escaped", "an exception leaves the interface: %s", o.what.c_str());
    }
  }
  if (mem) {
    sim::Rng g(sim::chseed());
    if (g.u(2)) w.rules.push_back({sim::F_ALLOC, g.u(150), 1 + g.u(3), 0});
    else w.rules.push_back({sim::F_ALLOC, 0, 0, 0.02 + 0.2 * g.real()});
  }
  for (auto &c : cs) c.faults = mem;
  sim::begin(w);
  std::vector<std::function<void()>> fs;
  for (int t = 0; t < threads; t++) fs.push_back([&cs, t] { run_program(cs[t]); });
  auto o = sim::sut_threads(fs);
  sim::clear_rules();
  sim::end(true);
  int calls = 0, failed = 0, faulted = 0;
  for (int t = 0; t < threads; t++) {
    if (!o[t].ok) sim::violate("escaped", "an exception leaves the interface: %s", o[t].what.c_str());
    if (!mem && cs[t].log != alone[t].log) sim::violate("disturbed-caller", "thread %d: other calls, other outcome than the same program alone", t);
    calls += cs[t].calls;
    failed += cs[t].failed;
    faulted += cs[t].faulted;
    sim::observe_s(cs[t].log);
    sim::observe(cs[t].calls * 100 + cs[t].failed);
  }
  if (calls > 2) sim::nontrivial();
  sim::probe("calls", calls);
  if (failed) sim::probe("failed calls", failed);
  if (faulted) sim::probe("calls that failed for lack of memory", faulted);
  sim::state_key(threads * 100 + std::min(9, failed) * 10 + std::min(9, faulted));
}

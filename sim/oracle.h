// Independent reference model of a model search: enumeration of candidates and plain
// aggregation of per-candidate outcomes. Shares no code with the library.
#pragma once
#include "rt.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>
namespace oracle {
typedef std::vector<int> VI;
struct Cand { // one candidate model: the two variable sets as the search passes them
  VI outer; // chosen from partitions (in partition order)
  VI inner; // fixed group of the searcher
  int searcher;
};
// all choices of k of the partitions (in index order) containing the first `fix`
inline std::vector<VI> choose_parts(int n, int k, int fix) {
  std::vector<VI> out;
  if (k > n || k <= 0) return out;
  std::vector<char> sel(n, 0);
  std::fill(sel.begin(), sel.begin() + k, 1);
  do {
    bool ok = true;
    for (int i = 0; i < fix; i++)
      if (!sel[i]) ok = false;
    if (!ok) continue;
    VI v;
    for (int i = 0; i < n; i++)
      if (sel[i]) v.push_back(i);
    out.push_back(v);
  } while (std::prev_permutation(sel.begin(), sel.end()));
  return out;
}
inline std::vector<VI> enumerate(const std::vector<VI> &parts, int k, int fix) {
  std::vector<VI> out;
  for (auto &sel : choose_parts((int)parts.size(), k, fix)) {
    std::vector<VI> acc(1);
    for (int p : sel) {
      std::vector<VI> nx;
      for (auto &a : acc)
        for (int it : parts[p]) {
          VI b = a;
          b.push_back(it);
          nx.push_back(b);
        }
      acc = nx;
    }
    out.insert(out.end(), acc.begin(), acc.end());
  }
  return out;
}
struct Entry { // one (candidate, metric, target) evaluation
  double metric, weight;
  VI endo, exo, extra;
  std::vector<double> mean, var; // per item (NaN mean: absent)
};
struct Agg {
  std::map<std::pair<int, int>, std::vector<Entry>> pool; // (metric index, target)
};
// ----- kinds: how weights and orders follow from a metric name
inline bool positive(const std::string &m) { return m == "aucIn" || m == "aucOut" || m == "sign" || m == "direction"; }
inline double weight(const std::string &m, double v, double mn) {
  if (m == "aucIn" || m == "aucOut" || m == "sign" || m == "direction") return v;
  if (m == "frequencyCostIn" || m == "frequencyCostOut") return 1 - v;
  if (m == "mape" || m == "rmspe") return std::exp(-0.5 * (v - mn) / 100);
  return std::exp(-0.5 * (v - mn));
}
struct WM {
  long double w = 0, s = 0;
  long n = 0, nz = 0;
  void add(long double x, long double ww) {
    n++;
    if (ww != 0) nz++;
    w += ww;
    s += ww * x;
  }
  double mean() const { return w == 0 ? NAN : (double)(s / w); }
};
inline bool close(double a, double b, double rtol = 1e-7, double atol = 1e-9) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
}
inline std::string vs(const VI &v) {
  std::string s = "(";
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]);
  return s + ")";
}
} // namespace oracle

// Generators of spline data (as reference models) and parameters.
#ifndef VERIF_GEN_H_
#define VERIF_GEN_H_

#include <string>
#include <vector>

#include "pbt.h"
#include "ref.h"

namespace gen {
using pbt::Src;
using ref::Model;

struct Limits {
  int min_degree = 1, max_degree = 4;
  int max_spans = 4;
  int extra_mult = 0;      // interior multiplicity up to p + extra_mult
  int max_points = 400;
  int min_sd = 1, max_sd = 4;
  bool decimals = false;   // all values are short decimals (exactly printable with six decimals)
};

inline double decimal(Src &s, int max_int, int digits) {
  int64_t scale = 1;
  for (int i = 0; i < digits; ++i) scale *= 10;
  int64_t v = static_cast<int64_t>(s.below(static_cast<uint64_t>(2 * max_int * scale + 1))) - max_int * scale;
  return static_cast<double>(v) / static_cast<double>(scale);
}

inline double small_real(Src &s) {  // a "nice" or arbitrary value of moderate size
  switch (s.weighted({3, 2, 3})) {
    case 0: return s.range(0, 6) - 3 + 0.0;
    case 1: return (s.range(0, 80) - 40) / 8.0;
    default: return (s.unit() - 0.5) * 20;
  }
}

// Distinct increasing knot values (spans + 1 of them).
inline std::vector<double> breaks(Src &s, int spans, bool decimals) {
  std::vector<double> b;
  int start_kind = s.weighted({5, 3, 2});
  double x = start_kind == 0 ? 0.0 : (start_kind == 1 ? s.range(0, 10) - 5.0 : (decimals ? decimal(s, 3, 3) : (s.unit() - 0.5) * 8));
  int kind = s.weighted({3, 3, 3, 1, 2});
  b.push_back(x);
  for (int i = 0; i < spans; ++i) {
    double len = 1;
    if (kind == 1) len = s.pick<double>({1, 0.5, 2, 0.25, 3});
    if (kind == 2) len = decimals ? (1 + static_cast<double>(s.below(2000))) / 1000.0 : 0.05 + s.unit() * 2;
    if (kind == 3) len = s.pick<double>({0.1, 10, 0.01, 1, 0.3});
    if (kind == 4) len = 0.1 * (1 + s.range(0, 4));
    x = b.back() + len;
    if (decimals) x = std::round(x * 1000) / 1000;
    b.push_back(x);
  }
  if (kind == 4 && start_kind == 0 && !decimals) {  // normalise to [0, 1]
    double last = b.back();
    for (auto &v : b) v /= last;
    b.back() = 1;
  }
  if (!decimals && s.chance(10)) {  // other orders of magnitude
    double f = s.pick<double>({1e3, 1e-3, 1e-5, 1e5});
    for (auto &v : b) v *= f;
  }
  return b;
}

inline std::vector<double> knots(Src &s, int p, int spans, int max_mult, bool decimals) {
  std::vector<double> b = breaks(s, spans, decimals), k;
  for (int i = 0; i <= p; ++i) k.push_back(b[0]);
  bool multi = max_mult > 1 && s.chance(60);
  for (int i = 1; i < spans; ++i) {
    int m = multi ? 1 + (s.chance(50) ? s.range(0, max_mult - 1) : 0) : 1;
    for (int j = 0; j < m; ++j) k.push_back(b[i]);
  }
  for (int i = 0; i <= p; ++i) k.push_back(b[spans]);
  return k;
}

inline void points(Src &s, Model *m, bool decimals) {
  int total = m->total();
  m->cp.resize(static_cast<size_t>(total) * m->sd);
  int kind = s.weighted({2, 4, 1, 1});
  double scale = kind == 3 ? s.pick<double>({1e3, 1e-3, 1e5}) : 1;
  for (auto &c : m->cp) {
    if (decimals) {
      c = kind == 0 ? s.range(0, 20) - 10.0 : decimal(s, kind == 3 ? 5000 : 20, kind == 3 ? 6 : s.range(1, 6));
    } else if (kind == 0) {
      c = s.range(0, 6) - 3.0;
    } else if (kind == 2) {
      c = s.pick<double>({0, 1, -1, 0.5});
    } else {
      c = (s.unit() - 0.5) * 20 * scale;
    }
    if (c == 0) c = 0;  // no negative zero
  }
  m->w.assign(total, 1.0);
  if (m->rational) {
    int wk = s.weighted({2, 2, 4});
    double all = wk == 0 ? s.pick<double>({1, 2, 0.5}) : 1;
    for (auto &w : m->w) {
      if (wk == 0) w = all;
      if (wk == 1) w = s.pick<double>({1, 0.5, 2, 4, 0.25});
      if (wk == 2) w = decimals ? (100 + static_cast<double>(s.below(3000))) / 1000.0 : 0.2 + 3 * s.unit();
    }
  }
}

inline Model model(Src &s, int dim, bool rational, const Limits &l) {
  Model m;
  m.dim = dim;
  m.rational = rational;
  m.sd = s.range(l.min_sd, l.max_sd);
  int budget = l.max_points;
  for (int d = 0; d < dim; ++d) {
    int p = s.range(l.min_degree, l.max_degree);
    int spans = s.range(1, l.max_spans);
    m.p.push_back(p);
    std::vector<double> k = knots(s, p, spans, std::max(1, p + l.extra_mult), l.decimals);
    int cap = budget;
    for (int e = d + 1; e < dim; ++e) cap /= 3;
    if (static_cast<int>(k.size()) - p - 1 > std::max(cap, p + 1)) {  // too many points: a single span
      double b = k.back(), a = k.front();
      k.assign(p + 1, a);
      k.insert(k.end(), p + 1, b);
    }
    budget = std::max(1, budget / (static_cast<int>(k.size()) - p - 1));
    m.k.push_back(k);
  }
  points(s, &m, l.decimals);
  return m;
}

// Limits that keep a case cheap for the given parametric dimension.
inline Limits limits(int dim) {
  Limits l;
  bool t = pbt::thorough();
  if (dim == 1) {
    l.max_degree = t ? 7 : 5;
    l.max_spans = t ? 9 : 6;
  } else if (dim == 2) {
    l.max_degree = t ? 4 : 3;
    l.max_spans = t ? 5 : 4;
    l.max_points = 150;
  } else if (dim == 3) {
    l.max_degree = 2 + (t ? 1 : 0);
    l.max_spans = 3;
    l.max_points = 150;
  } else {
    l.max_degree = 2;
    l.max_spans = 2;
    l.max_points = 120;
  }
  return l;
}

inline std::vector<double> distinct(const std::vector<double> &k) {
  std::vector<double> d;
  for (double x : k) {
    if (d.empty() || x > d.back()) d.push_back(x);
  }
  return d;
}
inline int multiplicity(const std::vector<double> &k, double u) {
  return static_cast<int>(std::count(k.begin(), k.end(), u));
}

// A parameter in the closed range, with emphasis on knots, ends and their neighbours.
inline double param(Src &s, const std::vector<double> &k) {
  std::vector<double> b = distinct(k);
  double lo = b.front(), hi = b.back();
  double u;
  switch (s.weighted({6, 3, 1, 2, 1, 1})) {
    case 0: {
      size_t i = s.below(b.size() - 1);
      u = b[i] + (b[i + 1] - b[i]) * s.unit();
      break;
    }
    case 1: u = b[s.below(b.size())]; break;
    case 2: u = lo; break;
    case 3: u = hi; break;
    case 4: {
      double x = b[s.below(b.size())];
      u = x == 0 ? (s.chance(50) ? 1e-17 : -1e-17) : std::nextafter(x, s.chance(50) ? hi + 1 : lo - 1);
      break;
    }
    default: {
      double x = b[s.below(b.size())];
      u = x + (s.chance(50) ? -1 : 1) * s.pick<double>({1e-15, 1e-12, 1e-8, 1e-5});
      break;
    }
  }
  return std::min(hi, std::max(lo, u));
}

inline std::vector<double> params(Src &s, const Model &m) {
  std::vector<double> u(m.dim);
  for (int d = 0; d < m.dim; ++d) u[d] = param(s, m.k[d]);
  return u;
}

// Interior parameter strictly inside the range, at least `gap` (relative to the span) away from distinct knots,
// or an existing interior knot.
inline double interior(Src &s, const std::vector<double> &k, bool *is_knot) {
  std::vector<double> b = distinct(k);
  *is_knot = false;
  if (b.size() > 2 && s.chance(40)) {
    *is_knot = true;
    return b[1 + s.below(b.size() - 2)];
  }
  size_t i = s.below(b.size() - 1);
  double f = s.chance(50) ? 0.5 : 0.05 + 0.9 * s.unit();
  return b[i] + (b[i + 1] - b[i]) * f;
}

inline std::string str(const std::vector<double> &v) {
  std::ostringstream o;
  o.precision(17);
  o << "(";
  for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i];
  o << ")";
  return o.str();
}
inline std::string str(const std::vector<int> &v) {
  std::ostringstream o;
  o << "(";
  for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i];
  o << ")";
  return o.str();
}

}  // namespace gen
#endif  // VERIF_GEN_H_

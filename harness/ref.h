// Reference model: B-splines and NURBS straight from the definition, in long double, with magnitude bounds that
// give a rounding tolerance for every value. Independent of the code under test.
#ifndef VERIF_REF_H_
#define VERIF_REF_H_

#include <algorithm>
#include <cmath>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace ref {
using LD = long double;

// Index i with k[i] <= u < k[i+1] (last non-empty interval closed on the right).
inline int span(const std::vector<double> &k, double u) {
  int n = static_cast<int>(k.size());
  if (u >= k.back()) {
    int i = n - 1;
    while (i > 0 && !(k[i - 1] < k[n - 1])) --i;
    return i - 1;
  }
  int i = 0;
  while (i + 1 < n && k[i + 1] <= u) ++i;
  return i;
}

// d-th derivative of all basis functions of degree p at u, with the sum of absolute values of the terms.
inline void basis(const std::vector<double> &k, int p, double u, int d, std::vector<LD> *val, std::vector<LD> *mag) {
  int m = static_cast<int>(k.size()) - 1;  // number of intervals
  int n = m - p;
  val->assign(n, 0);
  mag->assign(n, 0);
  if (d > p) return;
  std::vector<LD> v(m, 0), a(m, 0);
  int sp = span(k, u);
  v[sp] = 1;
  a[sp] = 1;
  for (int q = 1; q <= p; ++q) {
    for (int i = 0; i + q < m; ++i) {
      LD left = static_cast<LD>(k[i + q]) - k[i], right = static_cast<LD>(k[i + q + 1]) - k[i + 1];
      LD x = 0, y = 0;
      if (q <= p - d) {
        if (left > 0) {
          LD c = (static_cast<LD>(u) - k[i]) / left;
          x += c * v[i];
          y += std::fabs(c) * a[i];
        }
        if (right > 0) {
          LD c = (static_cast<LD>(k[i + q + 1]) - u) / right;
          x += c * v[i + 1];
          y += std::fabs(c) * a[i + 1];
        }
      } else {
        if (left > 0) {
          x += q / left * v[i];
          y += q / left * a[i];
        }
        if (right > 0) {
          x -= q / right * v[i + 1];
          y += q / right * a[i + 1];
        }
      }
      v[i] = x;
      a[i] = y;
    }
  }
  for (int i = 0; i < n; ++i) {
    (*val)[i] = v[i];
    (*mag)[i] = a[i];
  }
}

struct Val {
  LD v = 0, mag = 0;
};

struct Model {
  int dim = 1;                          // parametric dimension
  int sd = 1;                           // dimension of the points
  bool rational = false;
  std::vector<int> p;                   // degrees
  std::vector<std::vector<double>> k;   // knot vectors
  std::vector<double> cp;               // sd values per point, first direction fastest
  std::vector<double> w;                // weight per point (1 if not rational)

  int n(int d) const { return static_cast<int>(k[d].size()) - p[d] - 1; }
  int total() const {
    int t = 1;
    for (int d = 0; d < dim; ++d) t *= n(d);
    return t;
  }
  int index(const std::vector<int> &idx) const {
    int r = 0, f = 1;
    for (int d = 0; d < dim; ++d) {
      r += idx[d] * f;
      f *= n(d);
    }
    return r;
  }
  std::vector<int> tuple(int i) const {
    std::vector<int> t(dim);
    for (int d = 0; d < dim; ++d) {
      t[d] = i % n(d);
      i /= n(d);
    }
    return t;
  }
  double lo(int d) const { return k[d].front(); }
  double hi(int d) const { return k[d].back(); }
  double max_abs() const {
    double m = 0;
    for (double c : cp) m = std::max(m, std::fabs(c));
    return m;
  }
  double min_w() const { return *std::min_element(w.begin(), w.end()); }
  double max_w() const { return *std::max_element(w.begin(), w.end()); }

  // Derivative `der` of the homogeneous component c (c == sd: the weight function).
  Val homogeneous(const std::vector<double> &u, const std::vector<int> &der, int c) const {
    std::vector<std::vector<LD>> b(dim), m(dim);
    std::vector<int> first(dim), count(dim);
    for (int d = 0; d < dim; ++d) {
      basis(k[d], p[d], u[d], der[d], &b[d], &m[d]);
      int sp = span(k[d], u[d]);
      first[d] = std::max(0, sp - p[d]);
      count[d] = std::min(sp, n(d) - 1) - first[d] + 1;
    }
    Val r;
    std::vector<int> it(dim, 0);
    while (true) {
      LD v = 1, a = 1;
      std::vector<int> idx(dim);
      for (int d = 0; d < dim; ++d) {
        idx[d] = first[d] + it[d];
        v *= b[d][idx[d]];
        a *= m[d][idx[d]];
      }
      int i = index(idx);
      LD x = static_cast<LD>(w[i]) * (c == sd ? 1.0L : static_cast<LD>(cp[i * sd + c]));
      r.v += v * x;
      r.mag += a * std::fabs(x);
      int d = 0;
      while (d < dim && ++it[d] == count[d]) it[d++] = 0;
      if (d == dim) break;
    }
    return r;
  }

  static LD binom(int a, int b) {
    LD r = 1;
    for (int i = 1; i <= b; ++i) r = r * (a - b + i) / i;
    return r;
  }

  Val derivative(const std::vector<double> &u, const std::vector<int> &der, int c) const {
    if (!rational) return homogeneous(u, der, c);
    std::map<std::vector<int>, Val> memo, wmemo;
    return quotient(u, der, c, &memo, &wmemo);
  }
  Val eval(const std::vector<double> &u, int c) const { return derivative(u, std::vector<int>(dim, 0), c); }
  Val weight(const std::vector<double> &u) const { return homogeneous(u, std::vector<int>(dim, 0), sd); }

  std::string describe() const {
    std::ostringstream o;
    o.precision(17);
    o << (rational ? "NURBS<" : "BSpline<") << dim << "> degrees(";
    for (int d = 0; d < dim; ++d) o << (d ? "," : "") << p[d];
    o << ")";
    for (int d = 0; d < dim; ++d) {
      o << " knots" << d << "[";
      for (size_t i = 0; i < k[d].size(); ++i) o << (i ? "," : "") << k[d][i];
      o << "]";
    }
    o << " points(dim " << sd << ")[";
    for (size_t i = 0; i < cp.size(); ++i) o << (i ? (i % sd ? "," : " ") : "") << cp[i];
    o << "]";
    if (rational) {
      o << " weights[";
      for (size_t i = 0; i < w.size(); ++i) o << (i ? "," : "") << w[i];
      o << "]";
    }
    return o.str();
  }

 private:
  Val quotient(const std::vector<double> &u, const std::vector<int> &der, int c,
               std::map<std::vector<int>, Val> *memo, std::map<std::vector<int>, Val> *wmemo) const {
    auto f = memo->find(der);
    if (f != memo->end()) return f->second;
    auto wd = [&](const std::vector<int> &d) {
      auto g = wmemo->find(d);
      if (g != wmemo->end()) return g->second;
      Val v = homogeneous(u, d, sd);
      (*wmemo)[d] = v;
      return v;
    };
    Val r = homogeneous(u, der, c);
    LD w0 = wd(std::vector<int>(dim, 0)).v;
    std::vector<int> b(dim, 0);
    while (true) {
      int d = 0;
      while (d < dim && ++b[d] > der[d]) b[d++] = 0;
      if (d == dim) break;
      LD f2 = 1;
      std::vector<int> rest(dim);
      for (int e = 0; e < dim; ++e) {
        f2 *= binom(der[e], b[e]);
        rest[e] = der[e] - b[e];
      }
      Val wv = wd(b), q = quotient(u, rest, c, memo, wmemo);
      r.v -= f2 * wv.v * q.v;
      r.mag += f2 * wv.mag * q.mag;
    }
    r.v /= w0;
    r.mag /= w0;
    (*memo)[der] = r;
    return r;
  }
};

// |a - b| within c times rounding level of the computation that produced the value.
inline bool close(double a, const Val &b, double rel = 1e-11) {
  return std::isfinite(a) && std::fabs(static_cast<LD>(a) - b.v) <= rel * b.mag + 1e-290L;
}

}  // namespace ref
#endif  // VERIF_REF_H_

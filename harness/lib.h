// Adaptors between reference models and SplineLib objects; uses only the public interface.
#ifndef VERIF_LIB_H_
#define VERIF_LIB_H_

#include <array>
#include <memory>
#include <vector>

#include "b_spline.h"
#include "nurbs.h"

#include "gen.h"
#include "pbt.h"
#include "ref.h"

namespace lib {
using ref::Model;

inline std::shared_ptr<baf::KnotVector> knot_vector(const std::vector<double> &k) {
  std::vector<ParamCoord> v;
  for (double x : k) v.emplace_back(ParamCoord{x});
  return std::make_shared<baf::KnotVector>(v);
}
inline std::vector<double> knots_of(const baf::KnotVector &kv) {
  std::vector<double> k;
  for (size_t i = 0; i < kv.GetNumberOfKnots(); ++i) k.push_back(kv.GetKnot(i).get());
  return k;
}
template<int D>
KnotVectors<D> knot_vectors(const Model &m) {
  KnotVectors<D> kv;
  for (int d = 0; d < D; ++d) kv[d] = knot_vector(m.k[d]);
  return kv;
}
template<int D>
std::array<Degree, D> degrees(const Model &m) {
  std::array<Degree, D> g;
  for (int d = 0; d < D; ++d) g[d] = Degree{m.p[d]};
  return g;
}
inline std::vector<baf::ControlPoint> control_points(const Model &m) {
  std::vector<baf::ControlPoint> v;
  for (int i = 0; i < m.total(); ++i) {
    v.emplace_back(std::vector<double>(m.cp.begin() + i * m.sd, m.cp.begin() + (i + 1) * m.sd));
  }
  return v;
}
template<int D>
std::array<ParamCoord, D> coords(const std::vector<double> &u) {
  std::array<ParamCoord, D> a;
  for (int d = 0; d < D; ++d) a[d] = ParamCoord{u[d]};
  return a;
}
template<int D>
std::array<int, D> ints(const std::vector<int> &u) {
  std::array<int, D> a;
  for (int d = 0; d < D; ++d) a[d] = u[d];
  return a;
}
inline std::vector<int> all_dims(int n) {
  std::vector<int> v;
  for (int i = 0; i < n; ++i) v.push_back(i);
  return v;
}

template<class S>
struct Traits;
template<int D>
struct Traits<spl::BSpline<D>> {
  static constexpr int dim = D;
  static constexpr bool rational = false;
  static std::shared_ptr<spl::BSpline<D>> make(const Model &m) {
    return std::make_shared<spl::BSpline<D>>(knot_vectors<D>(m), degrees<D>(m), control_points(m));
  }
};
template<int D>
struct Traits<spl::NURBS<D>> {
  static constexpr int dim = D;
  static constexpr bool rational = true;
  static std::shared_ptr<spl::NURBS<D>> make(const Model &m) {
    return std::make_shared<spl::NURBS<D>>(knot_vectors<D>(m), degrees<D>(m), control_points(m), m.w);
  }
};
template<class S>
std::shared_ptr<S> make(const Model &m) {
  return Traits<S>::make(m);
}

// Everything observable about the representation, with consistency checks.
template<int D>
Model snapshot(const spl::Spline<D> &s, bool rational, const std::string &where) {
  Model m;
  m.dim = D;
  m.rational = rational;
  m.sd = s.GetPointDim();
  auto per = s.GetPointsPerDirection();
  int total = 1;
  for (int d = 0; d < D; ++d) {
    m.p.push_back(s.GetDegree(d).get());
    m.k.push_back(knots_of(*s.GetKnotVector(d)));
    PBT_REQUIRE(m.p[d] >= 0, where << ": negative degree in direction " << d);
    PBT_REQUIRE(static_cast<int>(m.k[d].size()) >= 2 * m.p[d] + 2,
                where << ": too few knots in direction " << d << ": " << gen::str(m.k[d]) << " degree " << m.p[d]);
    for (size_t i = 1; i < m.k[d].size(); ++i) {
      PBT_REQUIRE(m.k[d][i - 1] <= m.k[d][i], where << ": knots not sorted in direction " << d << ": " << gen::str(m.k[d]));
    }
    PBT_REQUIRE(per[d] == m.n(d), where << ": points per direction " << d << " is " << per[d] << " for "
                                        << m.k[d].size() << " knots and degree " << m.p[d]);
    total *= per[d];
  }
  PBT_REQUIRE(s.GetNumberOfControlPoints() == total, where << ": number of control points "
                                                           << s.GetNumberOfControlPoints() << " != " << total);
  for (int i = 0; i < total; ++i) {
    auto idx = ints<D>(m.tuple(i));
    for (int c = 0; c < m.sd; ++c) m.cp.push_back(s.GetControlPoint(idx, c));
    m.w.push_back(s.GetWeight(idx));
  }
  return m;
}
template<class S>
Model snapshot(const S &s, const std::string &where) {
  return snapshot<Traits<S>::dim>(static_cast<const spl::Spline<Traits<S>::dim> &>(s), Traits<S>::rational, where);
}

inline bool same(const Model &a, const Model &b) {  // bitwise equal representation
  return a.dim == b.dim && a.sd == b.sd && a.rational == b.rational && a.p == b.p && a.k == b.k && a.cp == b.cp &&
         a.w == b.w;
}

inline void require_finite(const Model &m, const std::string &where) {
  for (double c : m.cp) PBT_REQUIRE(std::isfinite(c), where << ": control point not finite in " << m.describe());
  for (double c : m.w) PBT_REQUIRE(std::isfinite(c), where << ": weight not finite in " << m.describe());
}
inline void require_clamped(const Model &m, const std::string &where) {
  for (int d = 0; d < m.dim; ++d) {
    for (int i = 0; i <= m.p[d]; ++i) {
      PBT_REQUIRE(m.k[d][i] == m.k[d].front() && m.k[d][m.k[d].size() - 1 - i] == m.k[d].back(),
                  where << ": knot vector of direction " << d << " not clamped: " << gen::str(m.k[d]));
    }
  }
}

// Parameters that pin the geometry down: several per span in 1D, a stratified random selection otherwise.
inline std::vector<std::vector<double>> probe(pbt::Src &s, const Model &m, int direction, int extra_degree,
                                              int budget) {
  std::vector<std::vector<double>> out;
  std::vector<double> b = gen::distinct(m.k[direction]);
  int per = m.p[direction] + extra_degree + 1;
  std::vector<double> line;
  for (size_t i = 0; i + 1 < b.size(); ++i) {
    for (int j = 0; j < per; ++j) line.push_back(b[i] + (b[i + 1] - b[i]) * (j + 0.5) / per);
    line.push_back(b[i]);
  }
  line.push_back(b.back());
  if (m.dim == 1 && static_cast<int>(line.size()) <= 2 * budget) {
    for (double u : line) out.push_back({u});
    return out;
  }
  int count = std::min(budget, static_cast<int>(line.size()));
  size_t off = line.size() > static_cast<size_t>(count) ? s.below(line.size()) : 0;
  for (int i = 0; i < count; ++i) {
    std::vector<double> u(m.dim);
    for (int d = 0; d < m.dim; ++d) {
      u[d] = d == direction ? line[(off + i * line.size() / count) % line.size()] : gen::param(s, m.k[d]);
    }
    out.push_back(u);
  }
  return out;
}

// The library's evaluation of `s` equals the model `m` at the probes, within rel*magnitude + abs.
template<int D>
void require_geometry(const spl::Spline<D> &s, const Model &m, const std::vector<std::vector<double>> &us, double rel,
                      double abs, const std::string &where) {
  std::vector<int> dims = all_dims(m.sd);
  for (const auto &u : us) {
    std::vector<double> x = s.Evaluate(coords<D>(u), dims);
    PBT_REQUIRE(x.size() == dims.size(), where << ": evaluation returned " << x.size() << " values");
    for (int c = 0; c < m.sd; ++c) {
      ref::Val r = m.eval(u, c);
      PBT_REQUIRE(std::isfinite(x[c]) && std::fabs(static_cast<ref::LD>(x[c]) - r.v) <= rel * r.mag + abs,
                  where << ": at u=" << gen::str(u) << " coordinate " << c << " is " << x[c] << ", expected "
                        << static_cast<double>(r.v) << " (tolerance " << static_cast<double>(rel * r.mag + abs) << ")");
    }
  }
}
// The weight function of a NURBS (coordinate index one past the last).
template<int D>
void require_weights(const spl::Spline<D> &s, const Model &m, const std::vector<std::vector<double>> &us, double rel,
                     double abs, const std::string &where) {
  for (const auto &u : us) {
    double x = s.Evaluate(coords<D>(u), {m.sd})[0];
    ref::Val r = m.weight(u);
    PBT_REQUIRE(std::isfinite(x) && std::fabs(static_cast<ref::LD>(x) - r.v) <= rel * r.mag + abs,
                where << ": weight function at u=" << gen::str(u) << " is " << x << ", expected "
                      << static_cast<double>(r.v));
  }
}

// Calls f.template operator()<S>() for the spline type with the drawn dimension and rationality.
template<int MAXD, class F>
void dispatch(int dim, bool rational, F &&f) {
  if (dim == 1) {
    rational ? f(static_cast<spl::NURBS<1> *>(nullptr)) : f(static_cast<spl::BSpline<1> *>(nullptr));
  }
  if constexpr (MAXD >= 2) {
    if (dim == 2) rational ? f(static_cast<spl::NURBS<2> *>(nullptr)) : f(static_cast<spl::BSpline<2> *>(nullptr));
  }
  if constexpr (MAXD >= 3) {
    if (dim == 3) rational ? f(static_cast<spl::NURBS<3> *>(nullptr)) : f(static_cast<spl::BSpline<3> *>(nullptr));
  }
  if constexpr (MAXD >= 4) {
    if (dim == 4) rational ? f(static_cast<spl::NURBS<4> *>(nullptr)) : f(static_cast<spl::BSpline<4> *>(nullptr));
  }
}

}  // namespace lib
#endif  // VERIF_LIB_H_

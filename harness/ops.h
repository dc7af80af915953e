// Checks shared by the properties about geometry-preserving operations.
#ifndef VERIF_OPS_H_
#define VERIF_OPS_H_

#include "lib.h"

namespace ops {
using ref::Model;

// Rounding level of evaluations of these two representations of one geometry.
inline double scale_of(const Model &a, const Model &b) {
  double w = std::max(a.max_w(), b.max_w()) / std::max(1e-300, a.min_w());
  return std::max(a.max_abs(), b.max_abs()) * (a.rational ? w : 1);
}

// The spline is structurally valid and describes the geometry of `orig` on `orig`'s range (or the sub-range of the
// spline, which lies in it), within abs + rel * rounding level. Returns its representation.
template<class S>
Model require_same(pbt::Src &s, const S &spline, const Model &orig, int dir, double rel, double abs, double weight_abs,
                   const std::string &where, int budget = 12) {
  constexpr int D = lib::Traits<S>::dim;
  Model now = lib::snapshot(spline, where);
  lib::require_clamped(now, where);
  lib::require_finite(now, where);
  PBT_REQUIRE(now.sd == orig.sd, where << ": dimension of the points changed to " << now.sd);
  double a = abs + rel * scale_of(orig, now);
  double wa = weight_abs + rel * std::max(orig.max_w(), now.max_w());
  auto probes = lib::probe(s, now, dir, 0, budget);
  int lib_budget = D == 1 ? budget : D == 2 ? budget / 2 : 3;
  for (size_t i = 0; i < probes.size(); ++i) {
    const auto &u = probes[i];
    for (int c = 0; c < orig.sd; ++c) {
      ref::Val e = orig.eval(u, c), g = now.eval(u, c);
      PBT_REQUIRE(std::fabs(static_cast<double>(g.v - e.v)) <= a, where << ": the control points give "
                  << static_cast<double>(g.v) << " for coordinate " << c << " at u=" << gen::str(u) << ", expected "
                  << static_cast<double>(e.v) << " (tolerance " << a << ") in " << now.describe());
    }
  }
  std::vector<std::vector<double>> few;
  for (int i = 0; i < lib_budget && !probes.empty(); ++i) {
    few.push_back(probes[(i * probes.size() / lib_budget + (D > 1 ? 0 : s.below(2))) % probes.size()]);
  }
  lib::require_geometry<D>(spline, orig, few, 0, a, where);
  if (orig.rational) lib::require_weights<D>(spline, orig, few, 0, wa, where);
  return now;
}

template<class S>
Model require_same(pbt::Src &s, const S &spline, const Model &orig, int dir, const std::string &where) {
  return require_same(s, spline, orig, dir, 1e-11, 0, 0, where);
}

inline std::vector<double> with(std::vector<double> k, double u, int times) {
  for (int i = 0; i < times; ++i) k.insert(std::upper_bound(k.begin(), k.end(), u), u);
  return k;
}
inline std::vector<double> without(std::vector<double> k, double u, int times) {
  for (int i = 0; i < times; ++i) {
    auto it = std::find(k.begin(), k.end(), u);
    if (it != k.end()) k.erase(it);
  }
  return k;
}

inline void require_structure(const Model &now, const Model &before, int dir, const std::vector<double> &expected_knots,
                              int expected_degree, const std::string &where) {
  for (int d = 0; d < before.dim; ++d) {
    const std::vector<double> &ek = d == dir ? expected_knots : before.k[d];
    int ep = d == dir ? expected_degree : before.p[d];
    PBT_REQUIRE(now.p[d] == ep, where << ": degree of direction " << d << " is " << now.p[d] << " expected " << ep);
    PBT_REQUIRE(now.k[d] == ek, where << ": knots of direction " << d << " are " << gen::str(now.k[d]) << " expected "
                << gen::str(ek));
  }
}

}  // namespace ops
#endif  // VERIF_OPS_H_

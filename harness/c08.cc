// C08: subdivision yields two splines that together are the original.
#include "ops.h"

template<class S>
static void check(pbt::Src &s, const ref::Model &m) {
  constexpr int D = lib::Traits<S>::dim;
  auto spline = lib::make<S>(m);
  int dir = s.range(0, m.dim - 1);
  int p = m.p[dir];
  bool is_knot;
  double u = gen::interior(s, m.k[dir], &is_knot);
  if (u <= m.lo(dir) || u >= m.hi(dir)) throw pbt::Discard{};
  int mult = gen::multiplicity(m.k[dir], u);
  std::ostringstream o;
  o.precision(17);
  o << "subdivision at " << u << " (multiplicity " << mult << ") in direction " << dir;
  s.note(o.str());
  s.label(mult > 0 ? "at a knot" : "inside a span");
  if (m.dim > 1 || mult > 0 || m.k[dir].size() > 2u * p + 2) s.nontrivial();
  auto parts = spline->SudivideSpline(ParamCoord{u}, dir);
  std::vector<double> left, right;
  for (double k : m.k[dir]) {
    if (k < u) left.push_back(k);
    if (k > u) right.push_back(k);
  }
  for (int i = 0; i <= p; ++i) {
    left.push_back(u);
    right.insert(right.begin(), u);
  }
  for (int i = 0; i < 2; ++i) {
    PBT_REQUIRE(parts[i] != nullptr, o.str() << ": no part " << i);
    std::string where = o.str() + (i ? ", upper part" : ", lower part");
    ref::Model now = lib::snapshot(*parts[i], where);
    ops::require_structure(now, m, dir, i ? right : left, p, where);
    if (mult <= p) {
      ops::require_same(s, *parts[i], m, dir, where);
    } else if (i == 1) {
      ops::require_same(s, *parts[i], m, dir, where);
    }
    for (double w : now.w) PBT_REQUIRE(w > 0, where << ": weight " << w);
    // dense checks near the split, on both representations
    for (int j = 0; j < 3; ++j) {
      std::vector<double> x = gen::params(s, now);
      double lo = now.lo(dir), hi = now.hi(dir);
      x[dir] = lo + (hi - lo) * (i ? s.unit() * 0.1 : 0.9 + 0.1 * s.unit());
      x[dir] = std::min(std::max(x[dir], lo), hi);
      if (mult > p && x[dir] == u) continue;
      lib::require_geometry<D>(*parts[i], m, {x}, 0, 1e-11 * ops::scale_of(m, now), where);
    }
  }
  ref::Model whole = ops::require_same(s, *spline, m, dir, o.str() + ", the split spline");
  for (int d = 0; d < D; ++d) PBT_REQUIRE(whole.p[d] == m.p[d], o.str() << ": degree changed");
  for (int d = 0; d < D; ++d) {
    if (d != dir) PBT_REQUIRE(whole.k[d] == m.k[d], o.str() << ": knots of direction " << d << " changed");
  }
  PBT_REQUIRE(whole.lo(dir) == m.lo(dir) && whole.hi(dir) == m.hi(dir), o.str() << ": range of the split spline changed");
}

static void prop(pbt::Src &s) {
  int dim = s.weighted({4, 3, 2, 1}) + 1;
  bool rational = s.chance(50);
  gen::Limits l = gen::limits(dim);
  l.extra_mult = s.chance(10) ? 1 : 0;
  ref::Model m = gen::model(s, dim, rational, l);
  s.note(m.describe());
  s.label((rational ? "NURBS " : "BSpline ") + std::to_string(dim));
  lib::dispatch<4>(dim, rational, [&](auto *t) { check<std::remove_pointer_t<decltype(t)>>(s, m); });
}

PBT_MAIN("C08", prop, "random spline split at a random interior parameter; non-trivial: several dimensions, a split at a "
         "knot, or interior knots in that direction")

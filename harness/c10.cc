// C10: degree reduction is faithful or refuses.
#include "ops.h"

// Distance of the geometries if homogeneous coordinates differ by at most e.
static double geometric(const ref::Model &m, double e) {
  if (!m.rational) return e;
  double norm = m.max_abs() * std::sqrt(static_cast<double>(m.sd));
  return e * (1 + norm) / (m.min_w() - e);
}

template<class S>
static void elevated(pbt::Src &s, const ref::Model &m) {
  auto spline = lib::make<S>(m);
  int dir = s.range(0, m.dim - 1);
  int times = m.dim == 1 ? s.range(1, 2) : 1;
  for (int i = 0; i < times; ++i) spline->ElevateDegreeForDimension(dir);
  double scale = std::max(1.0, m.max_abs()) * m.max_w();
  std::ostringstream o;
  o << "direction " << dir << ": elevation " << times << " times, then reduction";
  s.note(o.str());
  s.label("elevated then reduced");
  s.nontrivial();
  for (int i = 0; i < times; ++i) {
    double tol = 1e-6 * scale;
    bool ok = spline->ReduceDegreeForDimension(dir, tol);
    PBT_REQUIRE(ok, o.str() << ": reduction " << i + 1 << " refused");
  }
  ref::Model now = ops::require_same(s, *spline, m, dir, 1e-8, 1e-11, 1e-11, o.str());
  for (int d = 0; d < m.dim; ++d) {
    PBT_REQUIRE(now.p[d] == m.p[d], o.str() << ": degree of direction " << d << " is " << now.p[d]);
    PBT_REQUIRE(now.lo(d) == m.lo(d) && now.hi(d) == m.hi(d), o.str() << ": range changed");
    if (d != dir) PBT_REQUIRE(now.k[d] == m.k[d], o.str() << ": knots of direction " << d << " changed");
  }
}

template<class S>
static void arbitrary(pbt::Src &s, const ref::Model &m) {
  auto spline = lib::make<S>(m);
  int dir = s.range(0, m.dim - 1);
  double size = std::max(m.max_abs(), 1e-3) * m.max_w();
  double tol = s.weighted({1, 3}) == 0 ? s.pick<double>({1e-14, 1e-9, 1e-5}) : size * s.pick<double>({1e-2, 0.1, 0.3, 1, 3});
  if (m.rational) tol = std::min(tol, 0.3 * m.min_w());
  std::ostringstream o;
  o.precision(17);
  o << "reduction in direction " << dir << " with tolerance " << tol;
  s.note(o.str());
  bool ok = spline->ReduceDegreeForDimension(dir, tol);
  s.label(ok ? "reduced" : "refused");
  if (ok || m.k[dir].size() > 2u * m.p[dir] + 2 || m.dim > 1) s.nontrivial();
  o << (ok ? " (success)" : " (refused)");
  ref::Model now = lib::snapshot(*spline, o.str());
  for (int d = 0; d < m.dim; ++d) {
    PBT_REQUIRE(now.p[d] == m.p[d] - (ok && d == dir ? 1 : 0), o.str() << ": degree of direction " << d << " is " << now.p[d]);
    PBT_REQUIRE(now.lo(d) == m.lo(d) && now.hi(d) == m.hi(d), o.str() << ": range changed");
    if (d != dir) PBT_REQUIRE(now.k[d] == m.k[d], o.str() << ": knots of direction " << d << " changed");
  }
  if (ok && now.min_w() < 1e-3 * m.min_w()) {  // the reduced spline has a (nearly) vanishing weight
    s.label("vanishing weight");
    return;
  }
  double bound = ok ? 2 * geometric(m, tol) : 0;
  ops::require_same(s, *spline, m, dir, 1e-9, 1e-11 + bound, 1e-11 + (ok ? 2 * tol : 0), o.str(), 20);
}

static void prop(pbt::Src &s) {
  int dim = s.weighted({4, 3, 2, 1}) + 1;
  bool rational = s.chance(50);
  gen::Limits l = gen::limits(dim);
  bool a = s.chance(50);
  l.min_degree = a ? 1 : 2;
  l.max_degree = dim == 1 ? 5 : dim == 2 ? 3 : 2;
  l.max_spans = dim == 1 ? 4 : dim == 2 ? 3 : 2;
  ref::Model m = gen::model(s, dim, rational, l);
  s.note(m.describe());
  s.label((rational ? "NURBS " : "BSpline ") + std::to_string(dim));
  lib::dispatch<4>(dim, rational, [&](auto *t) {
    using S = std::remove_pointer_t<decltype(t)>;
    if (a) {
      elevated<S>(s, m);
    } else {
      arbitrary<S>(s, m);
    }
  });
}

PBT_MAIN("C10", prop, "random spline elevated and reduced again, or reduced with an arbitrary tolerance; non-trivial: "
         "elevated before, reduced, interior knots or several dimensions")

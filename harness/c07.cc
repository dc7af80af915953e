// C07: knot removal removes what it reports and stays within tolerance.
#include "ops.h"

template<class S>
static void removable(pbt::Src &s, const ref::Model &m) {  // insert, then remove again
  auto spline = lib::make<S>(m);
  int dir = s.range(0, m.dim - 1);
  int p = m.p[dir];
  bool is_knot;
  double u = gen::interior(s, m.k[dir], &is_knot);
  int mult = gen::multiplicity(m.k[dir], u);
  if (mult >= p || u <= m.lo(dir) || u >= m.hi(dir)) throw pbt::Discard{};
  int r = s.range(1, p - mult), n = s.range(1, r);
  double scale = std::max(m.max_abs(), 1e-3);
  double tol = s.pick<double>({1e-4, 1e-6}) * scale;
  std::ostringstream o;
  o.precision(17);
  o << "insertion of " << u << " " << r << " times in direction " << dir << ", removal " << n << " times, tolerance " << tol;
  s.note(o.str());
  s.label("insert then remove");
  if (r > 1 || m.dim > 1 || mult > 0) s.nontrivial();
  spline->InsertKnot(ParamCoord{u}, dir, static_cast<size_t>(r));
  ref::Model before = lib::snapshot(*spline, "insertion");
  size_t got = spline->RemoveKnot(ParamCoord{u}, dir, tol, static_cast<size_t>(n));
  PBT_REQUIRE(got == static_cast<size_t>(n), o.str() << ": reported " << got << " removals");
  ref::Model now = ops::require_same(s, *spline, m, dir, 1e-9, 0, 0, o.str());
  ops::require_structure(now, before, dir, ops::without(before.k[dir], u, n), p, o.str());
  if (n == r) {
    double a = 1e-8 * ops::scale_of(m, now);
    for (size_t i = 0; i < m.cp.size(); ++i) {
      PBT_REQUIRE(std::fabs(now.cp[i] - m.cp[i]) <= a, o.str() << ": control point value " << i << " is " << now.cp[i]
                  << " originally " << m.cp[i]);
    }
    for (size_t i = 0; i < m.w.size(); ++i) {
      PBT_REQUIRE(std::fabs(now.w[i] - m.w[i]) <= 1e-8 * m.max_w(), o.str() << ": weight " << i << " is " << now.w[i]
                  << " originally " << m.w[i]);
    }
  }
}

template<class S>
static void arbitrary(pbt::Src &s, const ref::Model &m) {
  auto spline = lib::make<S>(m);
  int dir = s.range(0, m.dim - 1);
  int p = m.p[dir];
  std::vector<double> b = gen::distinct(m.k[dir]);
  double u;
  if (b.size() > 2 && s.chance(92)) {
    u = b[1 + s.below(b.size() - 2)];
  } else {
    u = b[0] + (b[1] - b[0]) * 0.5;
  }
  int mult = gen::multiplicity(m.k[dir], u);
  int n = s.weighted({5, 2, 1}) == 0 ? 1 : s.range(1, mult + 2);
  double tol;
  double size = std::max(m.max_abs(), 1e-3);
  switch (s.weighted({2, 3, 2})) {
    case 0: tol = s.pick<double>({1e-13, 1e-10, 1e-6}); break;
    case 1: tol = size * s.unit() * 0.5; break;
    default: tol = size * s.pick<double>({1e-3, 1e-2, 0.1, 1}); break;
  }
  if (m.rational) tol = std::min(tol, 0.1 * (1 + m.max_abs()));
  std::ostringstream o;
  o.precision(17);
  o << "removal of " << u << " (multiplicity " << mult << ") up to " << n << " times in direction " << dir << ", tolerance "
    << tol;
  s.note(o.str());
  size_t got = spline->RemoveKnot(ParamCoord{u}, dir, tol, static_cast<size_t>(n));
  PBT_REQUIRE(got <= static_cast<size_t>(std::min(n, mult)), o.str() << ": reported " << got << " removals");
  s.label(got == 0 ? "refused" : got == static_cast<size_t>(n) ? "removed all" : "removed some");
  if (mult > 0) s.nontrivial();
  if (got == 0) {
    ref::Model now = lib::snapshot(*spline, o.str());
    PBT_REQUIRE(lib::same(now, m), o.str() << ": refused but the spline changed to " << now.describe());
    return;
  }
  double bound = 2 * tol * static_cast<double>(got);
  // the tolerance of a NURBS is stated for the geometry; the weight function moves by at most tol * min weight per removal
  ref::Model now = ops::require_same(s, *spline, m, dir, 1e-10, bound, bound * m.max_w(), o.str(), 16);
  ops::require_structure(now, m, dir, ops::without(m.k[dir], u, static_cast<int>(got)), p, o.str());
}

static void prop(pbt::Src &s) {
  int dim = s.weighted({4, 3, 2, 1}) + 1;
  bool rational = s.chance(50);
  gen::Limits l = gen::limits(dim);
  if (l.max_degree > 4) l.max_degree = 4;
  l.extra_mult = s.chance(20) ? 1 : 0;
  ref::Model m = gen::model(s, dim, rational, l);
  if (s.chance(25)) {  // few distinct points: neighbours coincide often
    for (auto &c : m.cp) c = s.range(0, 1);
  }
  s.note(m.describe());
  s.label((rational ? "NURBS " : "BSpline ") + std::to_string(dim));
  bool a = s.chance(50);
  lib::dispatch<4>(dim, rational, [&](auto *t) {
    using S = std::remove_pointer_t<decltype(t)>;
    if (a) {
      removable<S>(s, m);
    } else {
      arbitrary<S>(s, m);
    }
  });
}

PBT_MAIN("C07", prop, "random spline: insert knots and remove them again, or remove an arbitrary knot with an arbitrary "
         "tolerance; non-trivial: repeated or existing knot, several dimensions, or removal of a knot that was there")

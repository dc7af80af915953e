// C09: degree elevation preserves the geometry.
#include "ops.h"

template<class S>
static void check(pbt::Src &s, const ref::Model &m) {
  auto spline = lib::make<S>(m);
  ref::Model cur = m;
  int steps = m.dim == 1 ? s.range(1, 3) : s.range(1, 2);
  for (int step = 0; step < steps; ++step) {
    int dir = s.range(0, m.dim - 1);
    std::string where = "elevation " + std::to_string(step + 1) + " in direction " + std::to_string(dir);
    s.note(where);
    if (m.dim > 1 || cur.k[dir].size() > 2u * cur.p[dir] + 2 || step > 0) s.nontrivial();
    if (step > 0) s.label("repeated elevation");
    spline->ElevateDegreeForDimension(dir);
    ref::Model now = lib::snapshot(*spline, where);
    for (int d = 0; d < m.dim; ++d) {
      PBT_REQUIRE(now.p[d] == cur.p[d] + (d == dir ? 1 : 0), where << ": degree of direction " << d << " is " << now.p[d]);
      if (d != dir) PBT_REQUIRE(now.k[d] == cur.k[d], where << ": knots of direction " << d << " changed");
    }
    auto b = gen::distinct(cur.k[dir]);
    PBT_REQUIRE(gen::distinct(now.k[dir]) == b, where << ": distinct knots are now " << gen::str(now.k[dir]));
    for (double x : b) {
      int was = gen::multiplicity(cur.k[dir], x), is = gen::multiplicity(now.k[dir], x);
      PBT_REQUIRE(is >= was + 1 && is <= cur.p[dir] + 2, where << ": multiplicity of knot " << x << " was " << was
                  << " and is " << is);
    }
    for (double w : now.w) PBT_REQUIRE(w > 0, where << ": weight " << w);
    cur = ops::require_same(s, *spline, m, dir, 1e-10, 1e-12, 1e-12, where);
    if (cur.total() > 250) break;
  }
}

static void prop(pbt::Src &s) {
  int dim = s.weighted({4, 3, 2, 1}) + 1;
  bool rational = s.chance(50);
  gen::Limits l = gen::limits(dim);
  l.max_degree = dim == 1 ? 5 : dim == 2 ? 3 : 2;
  l.max_spans = dim == 1 ? 4 : dim == 2 ? 3 : 2;
  ref::Model m = gen::model(s, dim, rational, l);
  s.note(m.describe());
  s.label((rational ? "NURBS " : "BSpline ") + std::to_string(dim));
  lib::dispatch<4>(dim, rational, [&](auto *t) { check<std::remove_pointer_t<decltype(t)>>(s, m); });
}

PBT_MAIN("C09", prop, "random spline elevated 1-3 times in random directions; non-trivial: interior knots, several "
         "dimensions or repeated elevation")

// C06: knot insertion and refinement never change the geometry.
#include "ops.h"

template<class S>
static void check(pbt::Src &s, const ref::Model &m) {
  auto spline = lib::make<S>(m);
  ref::Model cur = m;
  int steps = s.range(1, 3);
  for (int step = 0; step < steps; ++step) {
    int dir = s.range(0, m.dim - 1);
    int p = m.p[dir];
    bool refine = s.chance(40);
    std::vector<double> knots = cur.k[dir];
    std::string where;
    if (refine) {
      std::vector<ParamCoord> list;
      int count = s.range(1, 4);
      for (int i = 0; i < count; ++i) {
        bool is_knot;
        double u = !list.empty() && s.chance(25) ? list.back().get() : gen::interior(s, cur.k[dir], &is_knot);
        if (gen::multiplicity(knots, u) >= p || u <= knots.front() || u >= knots.back()) continue;
        list.emplace_back(ParamCoord{u});
        knots = ops::with(knots, u, 1);
      }
      std::ostringstream o;
      o.precision(17);
      o << "refinement in direction " << dir << " by";
      for (auto &x : list) o << " " << x.get();
      where = o.str();
      if (list.size() > 1) s.nontrivial();
      s.note(where);
      spline->RefineKnots(list, dir);
      s.label("refine");
    } else {
      bool is_knot;
      double u = gen::interior(s, knots, &is_knot);
      int mult = gen::multiplicity(knots, u);
      if (mult >= p || u <= knots.front() || u >= knots.back()) continue;
      int r = s.range(1, p - mult);
      std::ostringstream o;
      o.precision(17);
      o << "insertion of " << u << " " << r << " times in direction " << dir;
      where = o.str();
      s.note(where);
      if (r > 1 || mult > 0 || m.dim > 1) s.nontrivial();
      s.label(mult > 0 ? "insert existing knot" : "insert new knot");
      if (r == 1 && s.chance(50)) {
        spline->InsertKnot(ParamCoord{u}, dir);
      } else {
        spline->InsertKnot(ParamCoord{u}, dir, static_cast<size_t>(r));
      }
      knots = ops::with(knots, u, r);
    }
    ref::Model now = ops::require_same(s, *spline, m, dir, where);
    ops::require_structure(now, cur, dir, knots, p, where);
    for (double w : now.w) PBT_REQUIRE(w > 0, where << ": weight " << w);
    cur = now;
    if (cur.total() > 400) break;
  }
}

static void prop(pbt::Src &s) {
  int dim = s.weighted({4, 3, 2, 1}) + 1;
  bool rational = s.chance(50);
  gen::Limits l = gen::limits(dim);
  ref::Model m = gen::model(s, dim, rational, l);
  s.note(m.describe());
  s.label((rational ? "NURBS " : "BSpline ") + std::to_string(dim));
  lib::dispatch<4>(dim, rational, [&](auto *t) { check<std::remove_pointer_t<decltype(t)>>(s, m); });
}

PBT_MAIN("C06", prop, "random spline with 1-3 insertions or refinements in random directions; non-trivial: repeated or "
         "existing knot, several knots, or more than one parametric dimension")

// C28: element lists are exactly the non-empty knot intervals.
#include "element_generator.h"

#include "lib.h"

static void prop(pbt::Src &s) {
  int dim = s.range(1, 3);
  bool rational = s.chance(50);
  gen::Limits l = gen::limits(dim);
  l.extra_mult = s.chance(40) ? 1 : 0;
  l.min_degree = s.chance(10) ? 0 : 1;
  ref::Model m = gen::model(s, dim, rational, l);
  s.note(m.describe());
  lib::dispatch<3>(dim, rational, [&](auto *t) {
    using S = std::remove_pointer_t<decltype(t)>;
    constexpr int D = lib::Traits<S>::dim;
    auto sp = lib::make<S>(m);
    if (s.chance(30)) {  // also after a change of the knot vectors
      int d = s.range(0, D - 1);
      bool knot;
      double u = gen::interior(s, m.k[d], &knot);
      if (gen::multiplicity(m.k[d], u) < m.p[d]) {
        s.note("insert ", u, " in direction ", d);
        sp->InsertKnot(ParamCoord{u}, d);
        m.k[d] = lib::knots_of(*sp->GetKnotVector(d));
      }
    }
    util::ElementGenerator<D> g(sp);
    ref::Model before = lib::snapshot(*sp, "spline");
    for (int d = 0; d < D; ++d) {
      std::vector<double> b = gen::distinct(m.k[d]);
      auto e = g.GetElementList(d);
      if (b.size() > 2) s.nontrivial();
      PBT_REQUIRE(e.size() == b.size() - 1, e.size() << " elements in direction " << d << " of knots " << gen::str(m.k[d]));
      for (size_t i = 0; i < e.size(); ++i) {
        PBT_REQUIRE(e[i].GetLowerBound().get() == b[i] && e[i].GetUpperBound().get() == b[i + 1],
                    "element " << i << " of direction " << d << " is [" << e[i].GetLowerBound().get() << ", "
                               << e[i].GetUpperBound().get() << "] in " << gen::str(m.k[d]));
      }
    }
    PBT_REQUIRE(lib::same(before, lib::snapshot(*sp, "spline")), "the spline changed");
  });
}

PBT_MAIN("C28", prop, "some direction has more than one element")

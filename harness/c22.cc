// C22: the translational sweep surface is the sum of trajectory and profile.
#include "surface_generator.h"

#include "lib.h"

static void prop(pbt::Src &s) {
  gen::Limits l = gen::limits(1);
  l.max_degree = pbt::thorough() ? 5 : 4;
  l.max_spans = 5;
  l.min_sd = l.max_sd = s.chance(80) ? 3 : s.range(1, 4);
  ref::Model t = gen::model(s, 1, true, l), c = gen::model(s, 1, true, l);
  s.note("trajectory ", t.describe());
  s.note("profile ", c.describe());
  if (t.total() != c.total() && t.w != c.w) s.nontrivial();
  auto nt = lib::make<spl::NURBS<1>>(t), nc = lib::make<spl::NURBS<1>>(c);
  spl::SurfaceGenerator g(nt, nc);
  spl::NURBS<2> surface(g);
  ref::Model m = lib::snapshot(surface, "surface");
  PBT_REQUIRE(m.p[0] == t.p[0] && m.p[1] == c.p[0], "degrees " << gen::str(m.p));
  PBT_REQUIRE(m.k[0] == t.k[0] && m.k[1] == c.k[0], "knots " << gen::str(m.k[0]) << " " << gen::str(m.k[1]));
  PBT_REQUIRE(m.sd == t.sd, "space dimension " << m.sd);
  for (int i = 0; i < 6; ++i) {
    std::vector<double> u = {gen::param(s, t.k[0])}, v = {gen::param(s, c.k[0])};
    std::vector<double> x = surface.Evaluate({ParamCoord{u[0]}, ParamCoord{v[0]}}, lib::all_dims(t.sd));
    for (int d = 0; d < t.sd; ++d) {
      ref::Val a = t.eval(u, d), b = c.eval(v, d);
      PBT_REQUIRE(std::fabs(x[d] - (a.v + b.v)) <= 1e-12 * (a.mag + b.mag), "at (" << u[0] << "," << v[0] << ") coordinate "
                  << d << " is " << x[d] << ", expected " << static_cast<double>(a.v) << " + " << static_cast<double>(b.v));
    }
    double w = surface.Evaluate({ParamCoord{u[0]}, ParamCoord{v[0]}}, {t.sd})[0];
    ref::LD want = t.weight(u).v * c.weight(v).v;
    PBT_REQUIRE(std::fabs(w - want) <= 1e-12 * want, "weight at (" << u[0] << "," << v[0] << ") is " << w << ", expected "
                                                                  << static_cast<double>(want));
  }
  PBT_REQUIRE(lib::same(lib::snapshot(*nt, "trajectory"), t) && lib::same(lib::snapshot(*nc, "profile"), c),
              "a curve changed");
  if (s.chance(30)) {  // and stays what it is when the curves are changed afterwards
    bool knot;
    double u = gen::interior(s, t.k[0], &knot);
    if (gen::multiplicity(t.k[0], u) < t.p[0]) nt->InsertKnot(ParamCoord{u}, 0);
    u = gen::interior(s, c.k[0], &knot);
    if (gen::multiplicity(c.k[0], u) < c.p[0]) nc->InsertKnot(ParamCoord{u}, 0);
    s.note("knots inserted into both curves");
    PBT_REQUIRE(lib::same(lib::snapshot(surface, "surface"), m), "changing the curves changed the surface");
  }
}

PBT_MAIN("C22", prop, "curves with different numbers of control points and weights")

// C03: NURBS evaluation equals the homogeneous-coordinate definition.
#include "lib.h"

template<int D>
static void check(pbt::Src &s, const ref::Model &m) {
  using S = spl::NURBS<D>;
  auto spline = lib::make<S>(m);
  if (s.chance(25)) spline = std::make_shared<S>(*spline);
  double factor = s.pick<double>({2, 0.5, 3, 0.1, 1000});
  ref::Model scaled = m;
  for (auto &w : scaled.w) w *= factor;
  auto spline2 = lib::make<S>(scaled);
  for (int rep = 0; rep < (D == 4 ? 1 : D == 3 ? 2 : 4); ++rep) {
    std::vector<double> u = gen::params(s, m);
    std::vector<int> dims;
    int nd = s.range(1, m.sd + 1);
    for (int i = 0; i < nd; ++i) dims.push_back(s.range(0, m.sd));
    std::vector<double> x = spline->Evaluate(lib::coords<D>(u), dims);
    PBT_REQUIRE(x.size() == dims.size(), "number of values " << x.size() << " for " << dims.size() << " coordinates");
    for (size_t i = 0; i < dims.size(); ++i) {
      ref::Val r = dims[i] == m.sd ? m.weight(u) : m.eval(u, dims[i]);
      PBT_REQUIRE(ref::close(x[i], r), "at " << gen::str(u) << " coordinate " << dims[i] << " is " << x[i] << " expected "
                  << static_cast<double>(r.v));
      double y = spline2->Evaluate(lib::coords<D>(u), {dims[i]})[0];
      if (dims[i] == m.sd) {
        r.v *= factor;
        r.mag *= factor;
      }
      PBT_REQUIRE(ref::close(y, r), "weights scaled by " << factor << ": at " << gen::str(u) << " coordinate " << dims[i]
                  << " is " << y << " expected " << static_cast<double>(r.v));
    }
  }
  // equal weights: the non-rational spline
  ref::Model eq = m;
  for (auto &w : eq.w) w = factor;
  auto e = lib::make<S>(eq);
  auto b = lib::make<spl::BSpline<D>>(m);
  std::vector<double> u = gen::params(s, m);
  for (int c = 0; c < m.sd; ++c) {
    double x = e->Evaluate(lib::coords<D>(u), {c})[0], y = b->Evaluate(lib::coords<D>(u), {c})[0];
    ref::Val r = eq.eval(u, c);
    PBT_REQUIRE(std::fabs(x - y) <= 1e-11 * r.mag + 1e-290, "equal weights " << factor << " at " << gen::str(u) << " coordinate " << c
                << ": " << x << " differs from the non-rational value " << y);
  }
}

static void prop(pbt::Src &s) {
  int dim = s.weighted({4, 4, 2, 1}) + 1;
  gen::Limits l = gen::limits(dim);
  l.extra_mult = s.chance(20) ? 1 : 0;
  ref::Model m = gen::model(s, dim, true, l);
  if (s.chance(10)) {  // strongly varying weights
    for (auto &w : m.w) w = s.pick<double>({1e-3, 1, 1e3});
  }
  s.label("dim " + std::to_string(dim));
  if (m.min_w() != m.max_w()) s.nontrivial();
  s.note(m.describe());
  switch (dim) {
    case 1: check<1>(s, m); break;
    case 2: check<2>(s, m); break;
    case 3: check<3>(s, m); break;
    default: check<4>(s, m); break;
  }
}

PBT_MAIN("C03", prop, "random NURBS of dimension 1-4 evaluated at random parameters, also with all weights scaled and "
         "with equal weights; non-trivial: weights differ")

// C04: spline derivatives are the true partial derivatives of all orders.
#include "lib.h"

// Number of recursive steps of the quotient rule for these orders (every decomposition is visited).
static double steps(const std::vector<int> &der, std::map<std::vector<int>, double> *memo) {
  auto f = memo->find(der);
  if (f != memo->end()) return f->second;
  double t = 1;
  std::vector<int> b(der.size(), 0);
  while (true) {
    size_t d = 0;
    while (d < der.size() && ++b[d] > der[d]) b[d++] = 0;
    if (d == der.size()) break;
    std::vector<int> rest(der.size());
    for (size_t e = 0; e < der.size(); ++e) rest[e] = der[e] - b[e];
    t += steps(rest, memo);
  }
  (*memo)[der] = t;
  return t;
}

template<class S>
static void check(pbt::Src &s, const ref::Model &m) {
  constexpr int D = lib::Traits<S>::dim;
  auto spline = lib::make<S>(m);
  if (s.chance(25)) spline = std::make_shared<S>(*spline);
  for (int rep = 0; rep < 3; ++rep) {
    std::vector<double> u = gen::params(s, m);
    std::vector<int> der(D);
    int sum = 0;
    for (int d = 0; d < D; ++d) der[d] = s.weighted({3, 3, 2, 1, 1, 1, 1});
    if (m.rational) {  // the library evaluates the quotient rule recursively for every control point: bound the work
      double acting = 1, basis = 0;
      for (int d = 0; d < D; ++d) {
        acting *= m.p[d] + 1;
        basis += std::pow(2.0, m.p[d]);
      }
      std::map<std::vector<int>, double> memo;
      double budget = pbt::thorough() ? 1e6 : 3e4;
      while (acting * acting * basis * steps(der, &memo) > budget) {
        auto it = std::max_element(der.begin(), der.end());
        if (*it == 0) break;
        --*it;
      }
    }
    for (int d = 0; d < D; ++d) sum += der[d];
    bool above = false;
    for (int d = 0; d < D; ++d) above = above || der[d] > m.p[d];
    std::vector<int> dims;
    int nd = s.range(1, m.sd);
    for (int i = 0; i < nd; ++i) dims.push_back(s.range(0, m.sd - 1));
    s.note("derivative ", gen::str(der), " at ", gen::str(u), " coordinates ", gen::str(dims));
    std::vector<double> x = spline->EvaluateDerivative(lib::coords<D>(u), dims, lib::ints<D>(der));
    PBT_REQUIRE(x.size() == dims.size(), "number of values " << x.size() << " for " << dims.size() << " coordinates");
    std::vector<double> plain;
    if (sum == 0) plain = spline->Evaluate(lib::coords<D>(u), dims);
    if (sum >= 2) s.nontrivial();
    s.label("order " + std::to_string(std::min(sum, 6)));
    for (size_t i = 0; i < dims.size(); ++i) {
      ref::Val r = m.derivative(u, der, dims[i]);
      PBT_REQUIRE(ref::close(x[i], r), "derivative " << gen::str(der) << " at " << gen::str(u) << " coordinate " << dims[i]
                  << " is " << x[i] << " expected " << static_cast<double>(r.v));
      if (sum == 0) PBT_REQUIRE(std::fabs(x[i] - plain[i]) <= 1e-11 * r.mag, "order zero " << x[i] << " != " << plain[i]);
      if (!m.rational && above) PBT_REQUIRE(x[i] == 0, "order above the degree gives " << x[i]);
    }
  }
}

static void prop(pbt::Src &s) {
  int dim = s.weighted({3, 3, 2, 1}) + 1;
  bool rational = s.chance(50);
  gen::Limits l = gen::limits(dim);
  l.extra_mult = s.chance(20) ? 1 : 0;
  ref::Model m = gen::model(s, dim, rational, l);
  s.label((rational ? "NURBS " : "BSpline ") + std::to_string(dim));
  s.note(m.describe());
  lib::dispatch<4>(dim, rational, [&](auto *t) { check<std::remove_pointer_t<decltype(t)>>(s, m); });
}

PBT_MAIN("C04", prop, "random spline, parameter and derivative orders per direction; non-trivial: total order >= 2")

// C05: exactly the valid parameters and spline data are accepted.
#include "lib.h"

template<class F>
static void rejects(F f, const std::string &what, bool range) {
  try {
    f();
  } catch (std::range_error &) {
    return;
  } catch (std::runtime_error &) {
    PBT_REQUIRE(!range, what << ": rejected, but not with a range error");
    return;
  } catch (std::exception &e) {
    PBT_FAIL(what << ": rejected with " << typeid(e).name() << " (" << e.what() << ")");
  }
  PBT_FAIL(what << ": accepted");
}

template<class S>
static void parameters(pbt::Src &s, const ref::Model &m) {
  constexpr int D = lib::Traits<S>::dim;
  auto spline = lib::make<S>(m);
  std::vector<double> u = gen::params(s, m);
  bool outside = s.chance(60);
  std::vector<int> der(D, 0);
  if (s.chance(60)) der[s.below(D)] = 1;
  if (outside) {
    int count = s.chance(75) ? 1 : s.range(1, D);
    for (int i = 0; i < count; ++i) {
      int d = s.range(0, D - 1);
      bool high = s.chance(50);
      double x = high ? m.hi(d) : m.lo(d), sign = high ? 1 : -1;
      double len = m.hi(d) - m.lo(d);
      switch (s.range(0, 6)) {
        case 0: u[d] = x + sign * len * (0.01 + s.unit()); break;
        case 1: u[d] = x + sign * len * 1e-6; break;
        case 2: u[d] = x + sign * len * 1e-10; break;
        case 3: u[d] = x + sign * std::max(std::fabs(x), len) * 1e-14; break;
        case 4: u[d] = std::nextafter(x, x + sign); break;
        case 5: u[d] = sign * 1e300; break;
        default: u[d] = x + sign * 1000 * len; break;
      }
    }
    s.nontrivial();
  }
  s.label(outside ? "outside" : "inside");
  s.note("parameter ", gen::str(u), outside ? " outside" : " inside");
  std::vector<int> dims = lib::all_dims(m.sd);
  if (outside) {
    rejects([&] { spline->Evaluate(lib::coords<D>(u), dims); }, "evaluation at " + gen::str(u), true);
    rejects([&] { spline->EvaluateDerivative(lib::coords<D>(u), dims, lib::ints<D>(der)); },
            "derivative at " + gen::str(u), true);
    if (m.rational) rejects([&] { spline->Evaluate(lib::coords<D>(u), {m.sd}); }, "weight at " + gen::str(u), true);
  } else {
    std::vector<double> x = spline->Evaluate(lib::coords<D>(u), dims);
    for (double v : x) PBT_REQUIRE(std::isfinite(v), "value at " << gen::str(u) << " not finite");
    x = spline->EvaluateDerivative(lib::coords<D>(u), dims, lib::ints<D>(der));
    for (double v : x) PBT_REQUIRE(std::isfinite(v), "derivative at " << gen::str(u) << " not finite");
  }
}

template<class S>
static std::shared_ptr<S> build(pbt::Src &s, const ref::Model &m, const std::vector<baf::ControlPoint> &cps,
                                const std::vector<double> &w, bool generator) {
  constexpr int D = lib::Traits<S>::dim;
  if constexpr (lib::Traits<S>::rational) {
    if (generator) {
      spl::NURBSGenerator<D> g(lib::knot_vectors<D>(m), lib::degrees<D>(m), cps, w);
      return std::make_shared<S>(g);
    }
    return std::make_shared<S>(lib::knot_vectors<D>(m), lib::degrees<D>(m), cps, w);
  } else {
    if (generator) {
      spl::BSplineGenerator<D> g(lib::knot_vectors<D>(m), lib::degrees<D>(m), cps);
      return std::make_shared<S>(g);
    }
    return std::make_shared<S>(lib::knot_vectors<D>(m), lib::degrees<D>(m), cps);
  }
}

template<class S>
static void data(pbt::Src &s, ref::Model m) {
  std::vector<baf::ControlPoint> cps = lib::control_points(m);
  std::vector<double> w = m.w;
  bool generator = s.chance(30);
  int kind = s.weighted({2, 2, 2, 2, 2, 1, m.rational ? 2 : 0});
  int d = s.range(0, m.dim - 1);
  int p = m.p[d];
  s.note("construction kind ", kind, " direction ", d, generator ? " by generator" : "");
  if (kind == 0) {
    s.label("valid data");
    auto spline = build<S>(s, m, cps, w, generator);
    ref::Model got = lib::snapshot(*spline, "constructed spline");
    PBT_REQUIRE(lib::same(got, m), "constructed spline differs from its data: " << got.describe());
    return;
  }
  s.nontrivial();
  std::vector<double> &k = m.k[d];
  double gap = gen::distinct(k)[1] - k[0], gap2 = k.back() - gen::distinct(k)[gen::distinct(k).size() - 2];
  if (kind == 1) {
    s.label("first knot multiplicity");
    int from = s.range(1, p);
    double x = k[0] + gap * s.pick<double>({0.5, 1e-3, 1e-9});
    for (int i = from; i <= p; ++i) k[i] = x;
  } else if (kind == 2) {
    s.label("last knot multiplicity");
    int from = s.range(1, p);
    double x = k.back() - gap2 * s.pick<double>({0.5, 1e-3, 1e-9});
    for (int i = from; i <= p; ++i) k[k.size() - 1 - i] = x;
  } else if (kind == 3) {
    s.label("number of control points");
    int change = s.weighted({2, 2, 1, 1});
    if (change == 0) cps.pop_back();
    if (change == 1) cps.push_back(cps[0]);
    if (change == 2) cps.insert(cps.end(), cps.begin(), cps.begin() + cps.size() / 2 + 1);
    if (change == 3) cps.clear();
    w.resize(cps.size(), 1.0);
  } else if (kind == 4) {
    s.label("dimension of a control point");
    size_t i = s.below(cps.size());
    cps[i] = baf::ControlPoint(std::vector<double>(m.sd == 1 || s.chance(50) ? m.sd + 1 : m.sd - 1, 0.5));
  } else if (kind == 5) {
    s.label("too few knots");
    double a = k.front(), b = k.back();
    int keep = s.range(p + 1, 2 * p + 1);
    std::vector<double> nk;
    for (int i = 0; i < keep; ++i) nk.push_back(i <= keep / 2 ? a : b);
    k = nk;
    int total = 1;
    for (int e = 0; e < m.dim; ++e) total *= std::max(1, m.n(e));
    if (s.chance(50)) {
      cps.resize(std::max(1, total), cps[0]);
      w.resize(cps.size(), 1.0);
    }
  } else {
    s.label("number of weights");
    int change = s.range(0, 2);
    if (change == 0) w.pop_back();
    if (change == 1) w.push_back(1);
    if (change == 2) w.clear();
  }
  rejects([&] { build<S>(s, m, cps, w, generator); }, "construction", false);
}

static void prop(pbt::Src &s) {
  int dim = s.weighted({3, 3, 2, 1}) + 1;
  bool rational = s.chance(50);
  gen::Limits l = gen::limits(dim);
  if (dim == 4) l.max_degree = 1;
  ref::Model m = gen::model(s, dim, rational, l);
  s.note(m.describe());
  bool params = s.chance(50);
  lib::dispatch<4>(dim, rational, [&](auto *t) {
    using S = std::remove_pointer_t<decltype(t)>;
    if (params) {
      parameters<S>(s, m);
    } else {
      data<S>(s, m);
    }
  });
}

PBT_MAIN("C05", prop, "random spline evaluated at parameters inside and outside its range, and constructions from valid "
         "data and data with one defect; non-trivial: a parameter outside or defective data")

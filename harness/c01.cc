// C01: basis functions form the B-spline basis.
#include "basis_function_factory.h"
#include "parameter_space.h"

#include "lib.h"

static void basis_functions(pbt::Src &s) {
  int p = s.range(0, pbt::thorough() ? 8 : 6);
  int spans = s.range(1, pbt::thorough() ? 10 : 7);
  std::vector<double> k = gen::knots(s, p, spans, p + 1, false);
  double u = gen::param(s, k);
  int n = static_cast<int>(k.size()) - p - 1;
  s.note("degree ", p, " knots ", gen::str(k), " u ", u);
  if (p >= 2 && spans >= 2) s.nontrivial();
  s.label(u == k.back() ? "u last knot" : gen::multiplicity(k, u) > 0 ? "u at knot" : "u inside span");
  auto kv = lib::knot_vector(k);
  std::vector<ref::LD> val, mag;
  std::vector<std::unique_ptr<baf::BasisFunction>> fs;
  for (int i = 0; i < n; ++i) fs.emplace_back(baf::BasisFunctionFactory::CreateDynamic(*kv, KnotSpan{i}, Degree{p}));
  int max_d = p + 2;
  spl::ParameterSpace<1> space({kv}, {Degree{p}});
  int first = ref::span(k, u) - p;
  PBT_REQUIRE(space.GetArrayOfFirstNonZeroBasisFunctions({ParamCoord{u}})[0] == first,
              "first non-zero basis function " << space.GetArrayOfFirstNonZeroBasisFunctions({ParamCoord{u}})[0]
                                               << " expected " << first);
  for (int d = 0; d <= max_d; ++d) {
    ref::basis(k, p, u, d, &val, &mag);
    double sum = 0, sum_mag = 0;
    for (int i = 0; i < n; ++i) {
      double x = d == 0 && s.chance(50) ? fs[i]->Evaluate(ParamCoord{u})
                                        : fs[i]->EvaluateDerivative(ParamCoord{u}, Derivative{d});
      PBT_REQUIRE(ref::close(x, {val[i], mag[i]}, 1e-12), "derivative " << d << " of basis function " << i << " at " << u
                  << " is " << x << " expected " << static_cast<double>(val[i]));
      if (i < first || i > first + p) PBT_REQUIRE(x == 0, "basis function " << i << " not zero outside support: " << x);
      if (d == 0) PBT_REQUIRE(x >= -1e-14, "basis function " << i << " negative: " << x);
      sum += x;
      sum_mag += static_cast<double>(mag[i]);
      double y = space.GetBasisFunctionDerivatives({i}, {ParamCoord{u}}, {d});
      PBT_REQUIRE(ref::close(y, {val[i], mag[i]}, 1e-12), "parameter space: derivative " << d << " of function " << i
                  << " is " << y << " expected " << static_cast<double>(val[i]));
      if (d == 0) {
        y = space.GetBasisFunctions({i}, {ParamCoord{u}});
        PBT_REQUIRE(ref::close(y, {val[i], mag[i]}, 1e-12), "parameter space: function " << i << " is " << y
                    << " expected " << static_cast<double>(val[i]));
      }
    }
    PBT_REQUIRE(std::fabs(sum - (d == 0 ? 1 : 0)) <= 1e-12 * sum_mag, "sum of derivatives " << d << " is " << sum);
    std::vector<double> nz = space.EvaluateAllNonZeroBasisFunctionDerivatives(0, ParamCoord{u}, d);
    PBT_REQUIRE(static_cast<int>(nz.size()) == p + 1, "number of non-zero basis functions " << nz.size());
    for (int i = 0; i <= p; ++i) {
      PBT_REQUIRE(ref::close(nz[i], {val[first + i], mag[first + i]}, 1e-12),
                  "non-zero list entry " << i << " derivative " << d << " is " << nz[i]);
    }
    if (d == 0) {
      nz = space.EvaluateAllNonZeroBasisFunctions(0, ParamCoord{u});
      PBT_REQUIRE(static_cast<int>(nz.size()) == p + 1, "number of non-zero basis functions " << nz.size());
      for (int i = 0; i <= p; ++i) {
        PBT_REQUIRE(ref::close(nz[i], {val[first + i], mag[first + i]}, 1e-12),
                    "non-zero list entry " << i << " is " << nz[i]);
      }
    }
  }
}

// Tensor products: index and parameter of each direction go with that direction.
template<int D>
static void tensor(pbt::Src &s) {
  ref::Model m;
  m.dim = D;
  for (int d = 0; d < D; ++d) {
    m.p.push_back(s.range(1, 4));
    m.k.push_back(gen::knots(s, m.p[d], s.range(1, 4), m.p[d], false));
  }
  std::vector<double> u = gen::params(s, m);
  std::vector<int> idx(D), der(D);
  for (int d = 0; d < D; ++d) {
    // mostly functions whose support contains u
    int first = ref::span(m.k[d], u[d]) - m.p[d];
    idx[d] = s.chance(90) ? first + s.range(0, m.p[d]) : s.range(0, m.n(d) - 1);
    der[d] = s.range(0, 3);
  }
  s.nontrivial();
  s.label("tensor");
  spl::ParameterSpace<D> space(lib::knot_vectors<D>(m), lib::degrees<D>(m));
  if (s.chance(30)) space = spl::ParameterSpace<D>(space);
  auto first = space.GetArrayOfFirstNonZeroBasisFunctions(lib::coords<D>(u));
  ref::Val v{1, 1}, w{1, 1};
  for (int d = 0; d < D; ++d) {
    PBT_REQUIRE(first[d] == ref::span(m.k[d], u[d]) - m.p[d], "first non-zero function in direction " << d);
    std::vector<ref::LD> val, mag;
    ref::basis(m.k[d], m.p[d], u[d], der[d], &val, &mag);
    v.v *= val[idx[d]];
    v.mag *= mag[idx[d]];
    ref::basis(m.k[d], m.p[d], u[d], 0, &val, &mag);
    w.v *= val[idx[d]];
    w.mag *= mag[idx[d]];
    std::vector<double> nz = space.EvaluateAllNonZeroBasisFunctions(d, ParamCoord{u[d]});
    PBT_REQUIRE(static_cast<int>(nz.size()) == m.p[d] + 1, "number of non-zero functions in direction " << d);
    for (int i = 0; i <= m.p[d]; ++i) {
      PBT_REQUIRE(ref::close(nz[i], {val[first[d] + i], mag[first[d] + i]}, 1e-12), "direction " << d << " entry " << i);
    }
  }
  double x = space.GetBasisFunctions(lib::ints<D>(idx), lib::coords<D>(u));
  PBT_REQUIRE(ref::close(x, w, 1e-11), "tensor product basis " << gen::str(idx) << " at " << gen::str(u) << " is " << x
              << " expected " << static_cast<double>(w.v));
  x = space.GetBasisFunctionDerivatives(lib::ints<D>(idx), lib::coords<D>(u), lib::ints<D>(der));
  PBT_REQUIRE(ref::close(x, v, 1e-11), "tensor product derivative " << gen::str(der) << " of " << gen::str(idx) << " at "
              << gen::str(u) << " is " << x << " expected " << static_cast<double>(v.v));
}

static void prop(pbt::Src &s) {
  switch (s.weighted({7, 1, 1, 1})) {
    case 0: basis_functions(s); break;
    case 1: tensor<2>(s); break;
    case 2: tensor<3>(s); break;
    default: tensor<4>(s); break;
  }
}

PBT_MAIN("C01", prop, "random clamped knot vector, degree and parameter (spans, knots, ends, neighbours of knots); "
         "non-trivial: degree >= 2 with an interior knot, or a tensor-product index")

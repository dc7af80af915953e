// C30: vector, control point and type-erasure utilities against direct arithmetic.
#include <any>

#include "any_casts.h"
#include "numeric_operations.h"
#include "numeric_settings.h"
#include "vector_utils.h"

#include "lib.h"

static double value(pbt::Src &s) {
  double v = gen::small_real(s);
  if (s.chance(10)) v *= s.pick<double>({1e6, 1e-6});
  return v == 0 ? 0 : v;
}
static std::vector<double> vec(pbt::Src &s, int n) {
  std::vector<double> v;
  for (int i = 0; i < n; ++i) v.push_back(value(s));
  return v;
}
static void near(double got, long double want, long double mag, const std::string &what) {
  PBT_REQUIRE(std::isfinite(got) && std::fabs(static_cast<long double>(got) - want) <= 1e-14L * mag + 1e-300L,
              what << " is " << got << ", expected " << static_cast<double>(want));
}
static std::vector<double> coords(const baf::ControlPoint &p) {
  std::vector<double> v;
  for (int i = 0; i < p.GetDimension(); ++i) v.push_back(p.GetValue(i));
  return v;
}
static void entries(const std::vector<double> &got, const std::vector<long double> &want,
                    const std::vector<long double> &mag, const std::string &what) {
  PBT_REQUIRE(got.size() == want.size(), what << " has " << got.size() << " entries instead of " << want.size());
  for (size_t i = 0; i < got.size(); ++i) near(got[i], want[i], mag[i], what + " entry " + std::to_string(i));
}

using VU = util::VectorUtils<double>;
using LD = long double;

static void vectors(pbt::Src &s) {
  int n = s.range(s.chance(10) ? 0 : 1, 7);
  std::vector<double> a = vec(s, n), b = vec(s, n);
  double f = value(s);
  s.note("a=", gen::str(a), " b=", gen::str(b), " f=", f);
  std::vector<double> a0 = a, b0 = b;
  LD aa = 0, dd = 0, ab = 0, abm = 0, dm = 0;
  std::vector<LD> sum, diff, mag, scaled, smag;
  for (int i = 0; i < n; ++i) {
    LD x = a[i], y = b[i];
    aa += x * x;
    dd += (x - y) * (x - y);
    dm = std::max(dm, std::fabs(x) + std::fabs(y));
    ab += x * y;
    abm += std::fabs(x * y);
    sum.push_back(x + y);
    diff.push_back(x - y);
    mag.push_back(std::fabs(x) + std::fabs(y));
    scaled.push_back(x * f);
    smag.push_back(std::fabs(x * f));
  }
  near(VU::ComputeTwoNorm(a), std::sqrt(aa), std::sqrt(aa), "norm");
  entries(VU::ComputeDifference(a, b), diff, mag, "difference");
  near(VU::ComputeDistance(a, b), std::sqrt(dd), dm, "distance");
  near(VU::ComputeScalarProduct(a, b), ab, abm, "scalar product");
  entries(VU::ScaleVector(a, f), scaled, smag, "scaled vector");
  baf::ControlPoint p(a), q(b);
  PBT_REQUIRE(p.GetDimension() == n, "dimension " << p.GetDimension());
  PBT_REQUIRE(coords(p) == a, "coordinates");
  entries(coords(p + q), sum, mag, "point sum");
  entries(coords(p - q), diff, mag, "point difference");
  entries(coords(p * f), scaled, smag, "scaled point");
  near(p.GetEuclideanNorm(), std::sqrt(aa), std::sqrt(aa), "point norm");
  PBT_REQUIRE(coords(p) == a && coords(q) == b && a == a0 && b == b0, "an operand changed");
  if (n > 0) {
    baf::ControlPoint z(static_cast<uint64_t>(n));
    PBT_REQUIRE(z.GetDimension() == n && coords(z) == std::vector<double>(n, 0.0), "zero point");
    baf::ControlPoint c = p;
    int i = s.range(0, n - 1);
    c.SetValue(i, f);
    std::vector<double> want = a;
    want[i] = f;
    PBT_REQUIRE(coords(c) == want && coords(p) == a, "set coordinate " << i);
  }
}

static void three(pbt::Src &s) {
  std::vector<double> a = vec(s, 3), b = vec(s, 3);
  s.note("a=", gen::str(a), " b=", gen::str(b));
  std::vector<LD> want, mag;
  for (int i = 0; i < 3; ++i) {
    LD x = static_cast<LD>(a[(i + 1) % 3]) * b[(i + 2) % 3], y = static_cast<LD>(a[(i + 2) % 3]) * b[(i + 1) % 3];
    want.push_back(x - y);
    mag.push_back(std::fabs(x) + std::fabs(y));
  }
  entries(VU::CrossProduct(a, b), want, mag, "cross product");
  std::array<std::array<double, 4>, 4> t{};
  std::array<double, 3> sc{};
  for (auto &r : t) {
    for (auto &x : r) x = value(s);
  }
  for (auto &x : sc) x = value(s);
  std::vector<LD> img, im;
  for (int i = 0; i < 3; ++i) {
    LD x = t[i][3], m = std::fabs(t[i][3]);
    for (int j = 0; j < 3; ++j) {
      x += static_cast<LD>(t[i][j]) * sc[j] * a[j];
      m += std::fabs(static_cast<LD>(t[i][j]) * sc[j] * a[j]);
    }
    img.push_back(x);
    im.push_back(m);
  }
  baf::ControlPoint p(a);
  entries(coords(p.Transform(t, sc)), img, im, "transformed point");
  PBT_REQUIRE(coords(p) == a, "transforming changed the point");
}

static void integers(pbt::Src &s) {
  using VI = util::VectorUtils<int>;
  int n = s.range(1, 6);
  std::vector<int> a, b;
  long aa = 0, ab = 0, dd = 0;
  for (int i = 0; i < n; ++i) {
    a.push_back(s.range(0, 200) - 100);
    b.push_back(s.range(0, 200) - 100);
    aa += a[i] * a[i];
    ab += a[i] * b[i];
    dd += (a[i] - b[i]) * (a[i] - b[i]);
  }
  s.note("a=", gen::str(a), " b=", gen::str(b));
  near(VI::ComputeTwoNorm(a), std::sqrt(static_cast<LD>(aa)), std::sqrt(static_cast<LD>(aa)), "integer norm");
  near(VI::ComputeDistance(a, b), std::sqrt(static_cast<LD>(dd)), std::sqrt(static_cast<LD>(dd)), "integer distance");
  PBT_REQUIRE(VI::ComputeScalarProduct(a, b) == ab, "integer scalar product");
  int x = s.range(0, 2000) - 1000;
  PBT_REQUIRE(util::NumericOperations<int>::increment(x) == x + 1, "increment of " << x);
  PBT_REQUIRE(util::NumericOperations<int>::decrement(x) == x - 1, "decrement of " << x);
  double u = value(s), d = s.pick<double>({0, 1e-3, 1e-14, 1, 1e-9}), tol = s.pick<double>({1e-3, 1e-8, 2, 1e-12});
  if (s.chance(50)) d = -d;
  double v = u + d;
  double real = std::fabs(u - v);
  if (real < 0.9 * tol || real > 1.1 * tol) {
    PBT_REQUIRE(util::NumericSettings<double>::AreEqual(u, v, tol) == (real < tol) &&
                    util::NumericSettings<double>::AreEqual(v, u, tol) == (real < tol),
                u << " and " << v << " tolerance " << tol);
  }
}

static void filter(pbt::Src &s) {
  int n = s.range(0, 7);
  std::vector<double> a = vec(s, n);
  std::vector<int> pos;
  bool bad = false;
  int count = s.range(0, 8);
  for (int i = 0; i < count; ++i) {
    int p = s.weighted({9, 1}) == 0 ? (n > 0 ? s.range(0, n - 1) : 0) : s.pick<int>({n, n + 1, -1, -n - 1, 1000000});
    pos.push_back(p);
    bad = bad || p < 0 || p >= n;
  }
  s.note("input ", gen::str(a), " positions ", gen::str(pos));
  s.label(bad ? "invalid positions" : "valid positions");
  std::vector<double> got;
  bool threw = false;
  try {
    got = VU::FilterVector(a, pos);
  } catch (std::runtime_error &) {
    threw = true;
  }
  PBT_REQUIRE(threw == bad, "filtering " << (threw ? "rejected" : "accepted") << " positions " << gen::str(pos) << " of "
                                         << n << " entries");
  if (!bad) {
    std::vector<double> want;
    for (int p : pos) want.push_back(a[p]);
    PBT_REQUIRE(got == want, "filtered " << gen::str(got) << " expected " << gen::str(want));
  }
}

template<int D>
static void ask(const std::any &a, int dim, bool rational, const void *ptr) {
  bool threw = false;
  try {
    auto sp = util::AnyCasts::GetSpline<D>(a);
    PBT_REQUIRE(static_cast<const void *>(sp.get()) == ptr, "another spline was returned");
  } catch (std::runtime_error &) {
    threw = true;
  }
  PBT_REQUIRE(threw == (dim != D), "spline of dimension " << dim << " requested as dimension " << D);
  threw = false;
  bool r = false;
  try {
    r = util::AnyCasts::IsRational<D>(a);
  } catch (std::runtime_error &) {
    threw = true;
  }
  PBT_REQUIRE(threw == (dim != D), "rationality of a spline of dimension " << dim << " requested as dimension " << D);
  PBT_REQUIRE(threw || r == rational, "rationality is " << r << " for a " << (rational ? "NURBS" : "B-spline"));
}

static void erased(pbt::Src &s) {
  int dim = s.weighted({1, 2, 2, 2, 2});
  bool rational = s.chance(50);
  std::any a;
  const void *ptr = nullptr;
  if (dim == 0) {
    switch (s.range(0, 6)) {
      case 0: break;
      case 1: a = 5; break;
      case 2: a = std::string("spline"); break;
      case 3: a = std::make_shared<int>(3); break;
      case 4: a = 2.5; break;
      case 5: a = std::shared_ptr<spl::Spline<1>>(); break;
      default: a = std::vector<double>{1, 2}; break;
    }
    s.label("foreign value");
  } else {
    gen::Limits l;
    l.max_degree = 1;
    l.max_spans = 1;
    ref::Model m = gen::model(s, dim, rational, l);
    lib::dispatch<4>(dim, rational, [&](auto *t) {
      using S = std::remove_pointer_t<decltype(t)>;
      auto sp = lib::make<S>(m);
      ptr = static_cast<const void *>(static_cast<spl::Spline<lib::Traits<S>::dim> *>(sp.get()));
      a = sp;
    });
  }
  s.note("value of dimension ", dim, rational ? " rational" : "");
  bool threw = false;
  int got = 0;
  try {
    got = util::AnyCasts::GetSplineDimension(a);
  } catch (std::runtime_error &) {
    threw = true;
  }
  PBT_REQUIRE(threw == (dim == 0), "dimension of a value of dimension " << dim << (threw ? " rejected" : " accepted"));
  PBT_REQUIRE(threw || got == dim, "dimension " << got << " reported for dimension " << dim);
  ask<1>(a, dim, rational, ptr);
  ask<2>(a, dim, rational, ptr);
  ask<3>(a, dim, rational, ptr);
  ask<4>(a, dim, rational, ptr);
}

static void prop(pbt::Src &s) {
  s.nontrivial();
  switch (s.weighted({4, 3, 2, 2, 1})) {
    case 0: s.label("vectors"); vectors(s); break;
    case 1: s.label("three dimensions"); three(s); break;
    case 2: s.label("integers and tolerances"); integers(s); break;
    case 3: filter(s); break;
    default: s.label("type erasure"); erased(s);
  }
}

PBT_MAIN("C30", prop, "operands drawn at random; all non-trivial")

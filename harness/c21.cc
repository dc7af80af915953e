// C21: projection onto curves and surfaces.
#include "projection.h"

#include "lib.h"

using ref::LD;

static double greville(const ref::Model &m, int d, int i) {
  LD x = 0;
  for (int j = 1; j <= m.p[d]; ++j) x += m.k[d][i + j];
  return static_cast<double>(x / m.p[d]);
}

static std::vector<double> point(pbt::Src &s, int n, double scale) {
  std::vector<double> v;
  for (int i = 0; i < n; ++i) v.push_back(gen::small_real(s) * scale);
  return v;
}

template<int D>
static std::array<ParamCoord, D> project(const std::vector<double> &x, const std::shared_ptr<spl::Spline<D>> &sp,
                                         const ref::Model &m, double tol, std::array<int, 2> scattering) {
  std::array<ParamCoord, D> u;
  try {
    if constexpr (D == 1) {
      u = tol > 0 ? spl::Projection<1>::ProjectionOnCurve(x, sp, tol) : spl::Projection<1>::ProjectionOnCurve(x, sp);
    } else {
      u = tol > 0 ? spl::Projection<2>::ProjectionOnSurface(x, sp, scattering, tol)
                  : spl::Projection<2>::ProjectionOnSurface(x, sp);
    }
  } catch (std::exception &e) {
    PBT_FAIL("projection of " << gen::str(x) << " throws " << e.what());
  }
  for (int d = 0; d < D; ++d) {
    PBT_REQUIRE(u[d].get() >= m.lo(d) && u[d].get() <= m.hi(d), "projection of " << gen::str(x) << " has parameter "
                << u[d].get() << " in direction " << d << " with range " << m.lo(d) << " to " << m.hi(d));
  }
  return u;
}

// Any spline and any point: in range.
template<class S>
static void arbitrary(pbt::Src &s) {
  constexpr int D = lib::Traits<S>::dim;
  gen::Limits l = gen::limits(D);
  l.max_degree = D == 1 ? 3 : 2;
  l.max_spans = D == 1 ? 4 : 2;
  l.max_points = 20;
  if (D == 2) l.min_sd = l.max_sd = 3;
  ref::Model m = gen::model(s, D, lib::Traits<S>::rational, l);
  if (s.chance(20)) {  // coinciding control points: vanishing derivatives
    int keep = s.range(1, 3);
    for (int i = 0; i < m.total(); ++i) {
      for (int c = 0; c < m.sd; ++c) m.cp[i * m.sd + c] = m.cp[(i / keep % m.total()) * m.sd + c];
    }
    s.label("coinciding control points");
  }
  std::shared_ptr<spl::Spline<D>> sp = lib::make<S>(m);
  std::vector<double> x = point(s, m.sd, s.pick<double>({1, 1, 100, 0.01}));
  if (s.chance(20)) {
    int i = s.range(0, m.total() - 1);
    x.assign(m.cp.begin() + i * m.sd, m.cp.begin() + (i + 1) * m.sd);
  }
  double tol = s.chance(50) ? 0 : s.pick<double>({1e-3, 1e-6, 1e-2});
  std::array<int, 2> sc = {s.range(1, 5), s.range(1, 5)};
  s.note(m.describe());
  s.note("point ", gen::str(x), " tolerance ", tol);
  s.label("arbitrary");
  project<D>(x, sp, m, tol, sc);
  PBT_REQUIRE(lib::same(lib::snapshot(*sp, lib::Traits<S>::rational, "spline"), m), "projection changed the spline");
}

// S(u) = a + sum (u_d - lo_d) dir_d, represented with any degree and knots; equal weights when rational.
template<class S>
static ref::Model affine(pbt::Src &s, int sd, std::vector<double> *a, std::vector<std::vector<double>> *dir) {
  constexpr int D = lib::Traits<S>::dim;
  gen::Limits l = gen::limits(D);
  l.max_degree = D == 1 ? 4 : 2;
  l.max_spans = D == 1 ? 5 : 3;
  l.max_points = 60;
  l.min_sd = l.max_sd = sd;
  ref::Model m = gen::model(s, D, lib::Traits<S>::rational, l);
  m.w.assign(m.w.size(), m.w[0]);
  *a = point(s, sd, 1);
  dir->clear();
  for (int d = 0; d < D; ++d) {  // orthogonal directions; the patch has edges of moderate length
    std::vector<double> v;
    LD len = 0;
    for (int tries = 0; tries < 5; ++tries) {
      v.clear();
      for (int i = 0; i < sd; ++i) v.push_back(s.chance(40) ? s.range(0, 2) - 1.0 : s.unit() * 2 - 1);
      for (int e = 0; e < d; ++e) {
        LD x = 0, y = 0;
        for (int i = 0; i < sd; ++i) {
          x += v[i] * (*dir)[e][i];
          y += (*dir)[e][i] * (*dir)[e][i];
        }
        for (int i = 0; i < sd; ++i) v[i] = static_cast<double>(v[i] - (*dir)[e][i] * x / y);
      }
      len = 0;
      for (double c : v) len += c * c;
      if (len > 0.01) break;
    }
    if (len <= 0.01) throw pbt::Discard{};
    double f = s.pick<double>({1, 4, 0.5}) / (m.hi(d) - m.lo(d));
    for (auto &c : v) c *= f;
    dir->push_back(v);
  }
  for (int i = 0; i < m.total(); ++i) {
    std::vector<int> t = m.tuple(i);
    for (int c = 0; c < sd; ++c) {
      LD x = (*a)[c];
      for (int d = 0; d < D; ++d) x += (static_cast<LD>(greville(m, d, t[d])) - m.lo(d)) * (*dir)[d][c];
      m.cp[i * sd + c] = static_cast<double>(x);
    }
  }
  return m;
}

template<class S>
static void linear(pbt::Src &s) {
  constexpr int D = lib::Traits<S>::dim;
  int sd = D == 2 ? 3 : s.range(1, 4);
  std::vector<double> a;
  std::vector<std::vector<double>> dir;
  ref::Model m = affine<S>(s, sd, &a, &dir);
  std::shared_ptr<spl::Spline<D>> sp = lib::make<S>(m);
  std::vector<double> f(D);
  bool beyond = s.chance(lib::Traits<S>::rational || D == 2 ? 8 : 20);  // takes all of the iterations
  for (int d = 0; d < D; ++d) f[d] = s.chance(70) ? s.unit() : s.pick<double>({0.5, 0, 1});
  if (beyond) f[s.range(0, D - 1)] = s.pick<double>({-0.5, 1.5, -3, 3});
  if (beyond) s.label("beyond the ends");
  std::vector<double> x = a;
  for (int d = 0; d < D; ++d) {
    for (int c = 0; c < sd; ++c) x[c] += f[d] * (m.hi(d) - m.lo(d)) * dir[d][c];
  }
  std::vector<double> off = point(s, sd, 0.3);  // offset orthogonal to the geometry
  for (int d = 0; d < D; ++d) {
    LD p = 0, q = 0;
    for (int c = 0; c < sd; ++c) {
      p += off[c] * dir[d][c];
      q += dir[d][c] * dir[d][c];
    }
    for (int c = 0; c < sd; ++c) off[c] = static_cast<double>(off[c] - dir[d][c] * p / q);
  }
  for (int c = 0; c < sd; ++c) x[c] += off[c];
  s.note(m.describe());
  s.note("point ", gen::str(x), " at relative parameters ", gen::str(f));
  s.label("linear");
  double tol = s.chance(50) ? 0 : 1e-6;
  auto u = project<D>(x, sp, m, tol, {s.range(1, 6), s.range(1, 6)});
  for (int d = 0; d < D; ++d) {
    double r = m.hi(d) - m.lo(d), want = m.lo(d) + std::min(1.0, std::max(0.0, f[d])) * r;
    double eps = 1e-9 * (r + std::fabs(m.lo(d)));
    PBT_REQUIRE(std::fabs(u[d].get() - want) <= eps, "projected parameter " << u[d].get() << " in direction " << d
                << ", expected " << want);
  }
}

// A point on a slightly curved geometry projects to itself.
template<class S>
static void curved(pbt::Src &s) {
  constexpr int D = lib::Traits<S>::dim;
  int sd = D == 2 ? 3 : s.range(2, 3);
  std::vector<double> a;
  std::vector<std::vector<double>> dir;
  ref::Model m = affine<S>(s, sd, &a, &dir);
  double bump = 1e9;
  for (int d = 0; d < D; ++d) {
    LD len = 0;
    for (double c : dir[d]) len += c * c;
    double gap = 1e9;  // smallest distance of neighbouring Greville points
    for (int i = 0; i + 1 < m.n(d); ++i) {
      double g = greville(m, d, i + 1) - greville(m, d, i);
      if (g <= 0) throw pbt::Discard{};  // interior multiplicity p+1
      gap = std::min(gap, g);
    }
    bump = std::min(bump, static_cast<double>(std::sqrt(len)) * gap);
  }
  bump *= D == 1 ? 0.1 : 0.05;
  for (auto &c : m.cp) c += (s.unit() * 2 - 1) * bump;
  std::shared_ptr<spl::Spline<D>> sp = lib::make<S>(m);
  std::vector<double> u0 = gen::params(s, m), x;
  for (int c = 0; c < sd; ++c) x.push_back(static_cast<double>(m.eval(u0, c).v));
  double range = 1e300, size = 0;
  for (int d = 0; d < D; ++d) range = std::min(range, m.hi(d) - m.lo(d));
  for (int d = 0; d < D; ++d) {
    LD len = 0;
    for (double c : dir[d]) len += c * c;
    size += static_cast<double>(std::sqrt(len)) * (m.hi(d) - m.lo(d));
  }
  double rel = s.pick<double>({1e-6, 1e-5, 1e-8});
  double tol = rel * range;
  s.note(m.describe());
  s.note("point ", gen::str(x), " of parameter ", gen::str(u0), " tolerance ", tol);
  s.label("curved");
  auto u = project<D>(x, sp, m, tol, {s.range(2, 6), s.range(2, 6)});
  LD dist = 0, mag = 0;
  std::vector<double> uu;
  for (int d = 0; d < D; ++d) uu.push_back(u[d].get());
  for (int c = 0; c < sd; ++c) {
    ref::Val v = m.eval(uu, c);
    dist += (v.v - x[c]) * (v.v - x[c]);
    mag += v.mag;
  }
  dist = std::sqrt(dist);
  PBT_REQUIRE(dist <= 20 * rel * size + 1e-12 * mag, "point of parameter " << gen::str(u0) << " projects to parameter "
              << gen::str(uu) << " at distance " << static_cast<double>(dist) << " (size " << size << ")");
}

static void prop(pbt::Src &s) {
  int dim = s.weighted({3, 2}) + 1;
  int kind = s.weighted({5, 5, 1});
  bool rational = s.chance(kind == 2 ? 15 : 40);  // projections that do not converge take many iterations
  s.nontrivial();
  lib::dispatch<2>(dim, rational, [&](auto *t) {
    using S = std::remove_pointer_t<decltype(t)>;
    if (kind == 0) {
      linear<S>(s);
    } else if (kind == 1) {
      curved<S>(s);
    } else {
      arbitrary<S>(s);
    }
  });
}

PBT_MAIN("C21", prop, "curves and surfaces with points on, beside and beyond them; all non-trivial")

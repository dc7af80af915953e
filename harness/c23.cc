// C23: swept surfaces: every section is the scaled profile in the trajectory's frame.
#include "surface_generator.h"

#include "lib.h"

using V3 = std::array<ref::LD, 3>;
static ref::LD dot(const V3 &a, const V3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V3 cross(const V3 &a, const V3 &b) {
  return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
}
static ref::LD norm(const V3 &a) { return std::sqrt(dot(a, a)); }

struct Section {
  double v;
  V3 t, x, z;
  ref::LD w, curvature;  // curvature times length, at most the sine between dT and ddT; or 0
  ref::LD scale;
};

static void prop(pbt::Src &s) {
  gen::Limits l = gen::limits(1);
  l.max_degree = 4;
  l.max_spans = 4;
  l.min_sd = l.max_sd = 3;
  ref::Model t = gen::model(s, 1, true, l), c = gen::model(s, 1, true, l);
  int kind = s.weighted({4, 3, 2});
  // a regular trajectory: control points advance along a direction, with bounded offsets
  int axis = s.range(0, 5);
  V3 dir{};
  if (axis < 3) {
    dir[axis] = 1;
  } else {
    for (int i = 0; i < 3; ++i) dir[i] = s.unit() * 2 - 1;
    if (norm(dir) < 0.2) dir = {1, 0, 0};
  }
  V3 start{};
  if (s.chance(60)) {
    for (int i = 0; i < 3; ++i) start[i] = gen::small_real(s);
  }
  double step = s.pick<double>({1, 0.5, 3});
  for (int i = 0; i < t.total(); ++i) {
    for (int d = 0; d < 3; ++d) {
      ref::LD x = start[d] + dir[d] * step * i;
      if (kind == 0) x += (s.unit() - 0.5) * step * 1.2;                        // spatial
      if (kind == 1 && d != (axis < 3 ? axis : 2)) x += (s.unit() - 0.5) * step;  // planar or spatial
      t.cp[3 * i + d] = static_cast<double>(x);
    }
  }
  if (kind == 1 && axis < 3) {  // planar
    int flat = (axis + 1) % 3;
    for (int i = 0; i < t.total(); ++i) t.cp[3 * i + flat] = static_cast<double>(start[flat]);
  }
  s.label(kind == 0 ? "spatial trajectory" : kind == 1 ? "planar trajectory" : "straight trajectory");
  int n = std::max(t.p[0] + 1, 2) + s.range(0, 6);
  std::vector<std::array<double, 3>> scaling;
  bool scaled = s.chance(60);
  for (int i = 0; i < n; ++i) {
    std::array<double, 3> f = {1, 1, 1};
    if (scaled) {
      for (auto &x : f) x = s.chance(50) ? s.pick<double>({1, 2, 0.5}) : 0.2 + 2 * s.unit();
    }
    scaling.push_back(f);
  }
  s.note("trajectory ", t.describe());
  s.note("profile ", c.describe());
  s.note("sections ", n, scaled ? " scaled" : "");
  std::vector<Section> sec;
  double lo = t.lo(0), hi = t.hi(0);
  ref::LD worst = 1;
  for (int i = 0; i < n; ++i) {
    Section q;
    q.v = i == n - 1 ? hi : static_cast<double>(lo + (static_cast<ref::LD>(hi) - lo) * i / (n - 1));
    V3 d1, d2;
    q.scale = 1;
    ref::LD dmag = 0;
    for (int d = 0; d < 3; ++d) {
      ref::Val a = t.eval({q.v}, d), b = t.derivative({q.v}, {1}, d), e = t.derivative({q.v}, {2}, d);
      q.t[d] = a.v;
      q.scale += a.mag;
      d1[d] = b.v;
      d2[d] = e.v;
      dmag += b.mag;
    }
    // a section parameter next to a knot: the frame may jump there
    for (double k : gen::distinct(t.k[0])) {
      if (k != lo && k != hi && std::fabs(k - q.v) < 1e-9 * (hi - lo)) throw pbt::Discard{};
    }
    if (norm(d1) < 1e-3 * dmag || norm(d1) == 0) throw pbt::Discard{};  // not regular
    q.x = d1;
    for (auto &x : q.x) x /= norm(d1);
    q.z = cross(d1, d2);
    q.curvature = norm(d2) > 0 ? std::min(norm(q.z) / norm(d1) / norm(d2), norm(q.z) / dot(d1, d1) * (hi - lo)) : 0;
    if (norm(q.z) > 0) {
      ref::LD len = norm(q.z);
      for (auto &x : q.z) x /= len;
    }
    q.w = t.weight({q.v}).v;
    if (q.curvature < 1e-3 && q.curvature > 1e-13) {
      if (kind != 2) throw pbt::Discard{};  // neither clearly curved nor straight
    }
    if (i > 0 && kind != 2 && q.curvature >= 1e-3 && sec.back().curvature >= 1e-3) {
      worst = std::min(worst, std::fabs(dot(q.z, sec.back().z)));
    }
    sec.push_back(q);
  }
  auto nt = lib::make<spl::NURBS<1>>(t), nc = lib::make<spl::NURBS<1>>(c);
  std::shared_ptr<spl::NURBS<2>> surface;
  try {
    spl::SurfaceGenerator g(nt, nc, n, scaling);
    surface = std::make_shared<spl::NURBS<2>>(g);
  } catch (std::range_error &e) {
    PBT_FAIL("sweeping throws " << e.what());
  } catch (std::runtime_error &e) {
    if (worst < 1e-9) throw pbt::Discard{};  // documented: binormals of neighbouring sections are orthogonal
    PBT_FAIL("sweeping throws " << e.what());
  }
  s.nontrivial();
  ref::Model m = lib::snapshot(*surface, "swept surface");
  lib::require_finite(m, "swept surface");
  lib::require_clamped(m, "swept surface");
  PBT_REQUIRE(m.sd == 3, "space dimension");
  PBT_REQUIRE(m.p[0] == t.p[0] && m.p[1] == c.p[0], "degrees " << gen::str(m.p));
  PBT_REQUIRE(m.k[1] == c.k[0], "profile knots " << gen::str(m.k[1]));
  PBT_REQUIRE(m.n(0) == n, m.n(0) << " sections instead of " << n);
  double range = hi - lo;
  PBT_REQUIRE(std::fabs(m.k[0].front() - lo) <= 1e-12 * (range + std::fabs(lo)) &&
                  std::fabs(m.k[0].back() - hi) <= 1e-12 * (range + std::fabs(hi)),
              "section knots " << gen::str(m.k[0]) << " for trajectory range " << lo << " to " << hi);
  for (int i = 1; i + t.p[0] < n; ++i) {
    ref::LD avg = 0;
    for (int j = i; j < i + t.p[0]; ++j) avg += sec[j].v;
    avg /= t.p[0];
    PBT_REQUIRE(std::fabs(m.k[0][t.p[0] + i] - avg) <= 1e-11 * (range + std::fabs(lo)),
                "section knot " << t.p[0] + i << " is " << m.k[0][t.p[0] + i] << ", expected the average "
                                << static_cast<double>(avg));
  }
  int mc = c.total();
  for (int i = 0; i < n; ++i) {
    const Section &q = sec[i];
    std::vector<V3> a(mc), b(mc);  // scaled profile points; section points relative to the trajectory point
    ref::LD size = 0;
    for (int j = 0; j < mc; ++j) {
      for (int d = 0; d < 3; ++d) {
        a[j][d] = static_cast<ref::LD>(c.cp[3 * j + d]) * scaling[i][d];
        b[j][d] = m.cp[3 * (j * n + i) + d] - q.t[d];
      }
      size = std::max(size, norm(a[j]));
      ref::LD w = q.w * c.w[j];
      PBT_REQUIRE(std::fabs(m.w[j * n + i] - w) <= 1e-11 * w, "weight of section " << i << " point " << j << " is "
                  << m.w[j * n + i] << ", expected " << static_cast<double>(w));
    }
    ref::LD tol = 1e-9 * size + 1e-12 * q.scale;  // of a length
    for (int j = 0; j < mc; ++j) {
      PBT_REQUIRE(std::fabs(dot(b[j], q.x) - a[j][0]) <= tol, "section " << i << " point " << j
                  << " extends " << static_cast<double>(dot(b[j], q.x)) << " along the tangent, expected "
                  << static_cast<double>(a[j][0]));
      if (q.curvature >= 1e-3) {
        PBT_REQUIRE(std::fabs(dot(b[j], q.z) - a[j][2]) <= tol * 1e4, "section " << i << " point " << j
                    << " extends " << static_cast<double>(dot(b[j], q.z)) << " along the binormal, expected "
                    << static_cast<double>(a[j][2]));
      }
      for (int k = j; k < mc && k < j + 4; ++k) {
        PBT_REQUIRE(std::fabs(dot(b[j], b[k]) - dot(a[j], a[k])) <= 4 * tol * (size + tol), "section " << i
                    << ": points " << j << " and " << k << " do not keep their lengths and angle");
      }
      if (j >= 2) {
        ref::LD va = dot(a[j], cross(a[j - 1], a[j - 2])), vb = dot(b[j], cross(b[j - 1], b[j - 2]));
        PBT_REQUIRE(std::fabs(va - vb) <= 20 * tol * size * size + 20 * tol * tol * tol, "section " << i
                    << ": the section is mirrored");
      }
    }
  }
  PBT_REQUIRE(lib::same(lib::snapshot(*nt, "trajectory"), t) && lib::same(lib::snapshot(*nc, "profile"), c),
              "a curve changed");
}

PBT_MAIN("C23", prop, "regular trajectories that are clearly curved or straight at every section")

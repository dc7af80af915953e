// C13: equality predicates answer exactly the question asked.
#include "ops.h"

template<class S>
static void exact(pbt::Src &s, const ref::Model &m) {
  ref::Model n = m;
  double tol = s.pick<double>({1e-3, 1e-6, 1e-10, 0.1});
  double f = s.pick<double>({0, 0.5, 3, 1000});  // difference in units of the tolerance
  double delta = f * tol * (s.chance(50) ? 1 : -1);
  bool use_default = s.chance(15);
  int kind = s.weighted({4, 3, m.rational ? 3 : 0, 1, 1});
  bool expect = f < 1;
  std::ostringstream o;
  o.precision(17);
  o << "tolerance " << tol << ", ";
  if (kind == 0) {
    size_t i = s.below(n.cp.size());
    n.cp[i] += delta;
    o << "control point value " << i << " differs by " << delta;
    s.label("control point");
  } else if (kind == 1) {
    int d = s.range(0, m.dim - 1);
    auto b = gen::distinct(m.k[d]);
    size_t i = s.below(b.size());
    double room = 1e300;
    if (i > 0) room = std::min(room, b[i] - b[i - 1]);
    if (i + 1 < b.size()) room = std::min(room, b[i + 1] - b[i]);
    if (std::fabs(delta) >= 0.9 * room) throw pbt::Discard{};
    for (auto &x : n.k[d]) {
      if (x == b[i]) x += delta;
    }
    o << "knot " << b[i] << " of direction " << d << " differs by " << delta;
    s.label("knot");
  } else if (kind == 2) {
    size_t i = s.below(n.w.size());
    if (n.w[i] + delta <= 0) delta = -delta;
    n.w[i] += delta;
    o << "weight " << i << " differs by " << delta;
    s.label("weight");
  } else if (kind == 3) {
    // another degree (and number of points) over the same knots where possible, else more knots
    int d = s.range(0, m.dim - 1);
    bool is_knot;
    double u = gen::interior(s, m.k[d], &is_knot);
    n.k[d] = ops::with(m.k[d], u, 1);
    n.cp.assign(static_cast<size_t>(n.total()) * n.sd, m.cp[0]);
    n.w.assign(n.total(), m.w[0]);
    if (!std::equal(m.cp.begin(), m.cp.end(), n.cp.begin())) s.label("all different");
    o << "one more knot in direction " << d;
    expect = false;
    s.label("size");
  } else {
    int d = s.range(0, m.dim - 1);
    n.p[d] = m.p[d] + 1;
    n.k[d].insert(n.k[d].begin(), n.k[d].front());
    n.k[d].push_back(n.k[d].back());
    n.cp.resize(static_cast<size_t>(n.total()) * n.sd, m.cp[0]);
    n.w.resize(n.total(), m.w[0]);
    o << "degree of direction " << d << " one higher";
    expect = false;
    s.label("degree");
  }
  s.label(expect ? "expected equal" : "expected different");
  s.note(o.str());
  s.nontrivial();
  auto a = lib::make<S>(m), b = lib::make<S>(n);
  bool ab, ba;
  if (use_default) {
    expect = lib::same(m, n);
    ab = a->AreEqual(*b);
    ba = b->AreEqual(*a);
    if (!expect && std::fabs(delta) < 1e-14) throw pbt::Discard{};
  } else {
    ab = a->AreEqual(*b, tol);
    ba = b->AreEqual(*a, tol);
  }
  PBT_REQUIRE(ab == expect && ba == expect, o.str() << ": equality is " << ab << " and " << ba << ", expected " << expect);
}

// A control point moved: the reference says where the geometry moved.
template<class S>
static void geometric(pbt::Src &s, const ref::Model &m) {
  auto a = lib::make<S>(m);
  double size = std::max(1e-3, m.max_abs());
  double tol = size * s.pick<double>({1e-7, 1e-4, 1e-2});
  std::ostringstream o;
  o.precision(17);
  s.nontrivial();
  if (s.chance(45)) {  // another representation of the same geometry
    auto b = std::make_shared<S>(*a);
    int dir = s.range(0, m.dim - 1);
    int kind = s.range(0, 2);
    if (kind == 0) {
      bool is_knot;
      double u = gen::interior(s, m.k[dir], &is_knot);
      if (gen::multiplicity(m.k[dir], u) < m.p[dir]) b->InsertKnot(ParamCoord{u}, dir);
    } else if (kind == 1) {
      b->ElevateDegreeForDimension(dir);
    }
    o << "same geometry, representation change " << kind << " in direction " << dir << ", tolerance " << tol;
    s.note(o.str());
    s.label("same geometry");
    bool ab = a->AreGeometricallyEqual(*b, tol), ba = b->AreGeometricallyEqual(*a, tol);
    PBT_REQUIRE(ab && ba, o.str() << ": geometric equality is " << ab << " and " << ba);
    return;
  }
  ref::Model n = m;
  int kind = s.weighted({2, 3, 2, 2});
  int c = s.range(0, m.sd - 1);
  double delta = tol * s.pick<double>({5, 100, 1e4}) * (s.chance(50) ? 1 : -1);
  if (kind == 0) {
    for (int i = 0; i < m.total(); ++i) n.cp[i * m.sd + c] += delta;
    o << "all points shifted by " << delta;
  } else if (kind == 1 || kind == 2) {
    std::vector<int> t(m.dim);
    for (int d = 0; d < m.dim; ++d) t[d] = s.chance(50) ? m.n(d) - 1 : 0;
    double &x = n.cp[m.index(t) * m.sd + c];
    x = kind == 1 ? x + delta : std::nan("");
    o << "corner " << gen::str(t) << " coordinate " << c << (kind == 1 ? " moved by " : " is NaN ") << delta;
  } else {
    std::vector<int> t(m.dim);
    for (int d = 0; d < m.dim; ++d) t[d] = s.range(0, m.n(d) - 1);
    n.cp[m.index(t) * m.sd + c] += delta;
    // seen on at least a third of the parameter range (product grid)
    std::vector<double> best(1, 0);
    double seen = 1;
    double reach = std::fabs(delta);
    for (int d = 0; d < m.dim; ++d) {
      std::vector<ref::LD> v, g;
      int hit = 0;
      double most = 0;
      for (int i = 0; i <= 30; ++i) {
        double u = std::min(m.hi(d), m.lo(d) + (m.hi(d) - m.lo(d)) / 30 * i);
        ref::basis(m.k[d], m.p[d], u, 0, &v, &g);
        most = std::max(most, static_cast<double>(v[t[d]]));
        if (v[t[d]] > 0.3) ++hit;
      }
      seen = std::min(seen, hit / 31.0);
      reach *= 0.3;
    }
    if (seen < 0.34) throw pbt::Discard{};
    if (m.rational) reach *= m.min_w() / m.max_w();
    if (reach < 3 * tol) throw pbt::Discard{};
    o << "point " << gen::str(t) << " coordinate " << c << " moved by " << delta;
  }
  o << ", tolerance " << tol;
  s.note(o.str());
  s.label("different geometry");
  auto b = lib::make<S>(n);
  bool ab = a->AreGeometricallyEqual(*b, tol), ba = b->AreGeometricallyEqual(*a, tol);
  PBT_REQUIRE(!ab && !ba, o.str() << ": geometric equality is " << ab << " and " << ba);
}

static void prop(pbt::Src &s) {
  int dim = s.weighted({4, 3, 1, 1}) + 1;
  bool rational = s.chance(50);
  bool e = s.chance(70);
  gen::Limits l = gen::limits(dim);
  if (!e) {
    l.max_degree = dim == 1 ? 4 : dim == 2 ? 3 : 1;
    l.max_spans = dim == 1 ? 4 : 2;
    if (dim > 3) dim = 3;
  }
  ref::Model m = gen::model(s, dim, rational, l);
  s.note(m.describe());
  lib::dispatch<4>(dim, rational, [&](auto *t) {
    using S = std::remove_pointer_t<decltype(t)>;
    if (e) {
      exact<S>(s, m);
    } else if constexpr (lib::Traits<S>::dim <= 3) {
      geometric<S>(s, m);
    }
  });
}

PBT_MAIN("C13", prop, "pairs of splines that are equal, differ in one entry by less or clearly more than the tolerance, "
         "are two representations of one geometry, or differ visibly; all non-trivial")

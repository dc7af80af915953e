// C11: any history of geometry-preserving operations keeps a valid, equal spline.
#include "ops.h"

template<class S>
static void check(pbt::Src &s, const ref::Model &m) {
  auto spline = lib::make<S>(m);
  double tol_sum = 0, weight_sum = 0;
  int steps = s.range(2, pbt::thorough() ? 12 : 7), done = 0;
  std::set<int> kinds;
  for (int step = 0; step < steps; ++step) {
    ref::Model cur = lib::snapshot(*spline, "history");
    int dir = s.range(0, m.dim - 1), p = cur.p[dir];
    std::vector<double> b = gen::distinct(cur.k[dir]);
    int max_points = m.dim == 1 ? 60 : 160;
    int kind = s.weighted({4, 2, 4, 2, 2, 2, 2});
    bool big = cur.total() > max_points;
    std::ostringstream o;
    o.precision(17);
    o << "step " << step + 1 << ": ";
    if (kind == 0 && !big) {
      bool is_knot;
      double u = gen::interior(s, cur.k[dir], &is_knot);
      int mult = gen::multiplicity(cur.k[dir], u);
      if (mult >= p || u <= b.front() || u >= b.back()) continue;
      int r = s.range(1, p - mult);
      o << "insert " << u << " " << r << " times in direction " << dir;
      s.note(o.str());
      spline->InsertKnot(ParamCoord{u}, dir, static_cast<size_t>(r));
    } else if (kind == 1 && !big) {
      std::vector<ParamCoord> list;
      o << "refine direction " << dir << " by";
      for (size_t i = 0; i + 1 < b.size() && i < 3; ++i) {
        double u = b[i] + (b[i + 1] - b[i]) * 0.5;
        if (u <= b[i] || u >= b[i + 1]) continue;
        list.emplace_back(ParamCoord{u});
        o << " " << u;
      }
      s.note(o.str());
      spline->RefineKnots(list, dir);
    } else if (kind == 2) {
      if (b.size() < 3) continue;
      double u = b[1 + s.below(b.size() - 2)];
      int mult = gen::multiplicity(cur.k[dir], u);
      double tol = s.pick<double>({1e-10, 1e-6, 1e-3}) * std::max(1e-3, cur.max_abs());
      if (cur.rational) tol = std::min(tol, 0.1 * (1 + cur.max_abs()));
      size_t n = static_cast<size_t>(s.range(1, mult));
      o << "remove " << u << " up to " << n << " times in direction " << dir << " tolerance " << tol;
      s.note(o.str());
      size_t got = spline->RemoveKnot(ParamCoord{u}, dir, tol, n);
      tol_sum += 2 * tol * static_cast<double>(got);
      weight_sum += 2 * tol * static_cast<double>(got) * m.max_w();
      if (got > 0) kinds.insert(20);
    } else if (kind == 3 && !big) {
      if (p >= 5) continue;
      bool ok = true;
      for (size_t i = 1; i + 1 < b.size(); ++i) ok = ok && gen::multiplicity(cur.k[dir], b[i]) <= p;
      if (!ok) continue;
      o << "elevate direction " << dir;
      s.note(o.str());
      spline->ElevateDegreeForDimension(dir);
    } else if (kind == 4) {
      if (p < 2) continue;
      bool ok = true;
      for (size_t i = 1; i + 1 < b.size(); ++i) ok = ok && gen::multiplicity(cur.k[dir], b[i]) <= p;
      if (!ok) continue;
      double tol = 1e-7 * std::max(1e-3, cur.max_abs()) * (m.rational ? std::min(1.0, m.min_w()) : 1.0);
      o << "reduce direction " << dir << " tolerance " << tol;
      s.note(o.str());
      if (spline->ReduceDegreeForDimension(dir, tol)) {
        kinds.insert(40);
        tol_sum += 2 * tol * (m.rational ? (1 + m.max_abs() * std::sqrt(m.sd)) / m.min_w() * 1.1 : 1);
        weight_sum += 2 * tol;
      }
    } else if (kind == 5) {
      bool is_knot;
      double u = gen::interior(s, cur.k[dir], &is_knot);
      if (u <= b.front() || u >= b.back()) continue;
      int part = s.range(0, 2);
      o << "subdivide direction " << dir << " at " << u << " keep " << (part == 2 ? "the whole" : part ? "upper" : "lower");
      s.note(o.str());
      auto parts = spline->SudivideSpline(ParamCoord{u}, dir);
      if (part < 2) spline = parts[part];
    } else if (kind == 6) {
      o << "copy";
      s.note(o.str());
      auto c = std::make_shared<S>(*spline);
      spline = c;
    } else {
      continue;
    }
    kinds.insert(kind);
    ++done;
    ref::Model now = lib::snapshot(*spline, o.str());
    // A weight close to zero or a control point far out makes the evaluation itself inaccurate: stop there.
    if (now.rational && now.min_w() < 1e-3 * m.min_w()) {
      s.label("history ended by a vanishing weight");
      lib::require_finite(now, o.str());
      return;
    }
    ops::require_same(s, *spline, m, dir, 1e-9, tol_sum + 1e-11 * done, weight_sum + 1e-11 * done, o.str(), 8);
  }
  if (done >= 3 && kinds.size() >= 2) s.nontrivial();
  s.label("steps " + std::to_string(std::min(done, 7)));
  for (int k : kinds) s.label("operation " + std::to_string(k));
}

static void prop(pbt::Src &s) {
  int dim = s.weighted({5, 4, 1}) + 1;
  bool rational = s.chance(50);
  gen::Limits l = gen::limits(dim);
  l.max_degree = dim == 1 ? 4 : dim == 2 ? 3 : 2;
  l.max_spans = dim == 1 ? 4 : 2;
  ref::Model m = gen::model(s, dim, rational, l);
  s.note(m.describe());
  s.label((rational ? "NURBS " : "BSpline ") + std::to_string(dim));
  lib::dispatch<3>(dim, rational, [&](auto *t) { check<std::remove_pointer_t<decltype(t)>>(s, m); });
}

PBT_MAIN("C11", prop, "random spline under random histories of insertion, refinement, removal, elevation, reduction, "
         "subdivision and copying, checked after every step; non-trivial: at least 3 operations of 2 kinds")

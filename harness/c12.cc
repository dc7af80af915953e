// C12: splines are values: copies and parts never influence each other, read-only operations change nothing.
#include <any>

#include "iges_writer.h"
#include "irit_writer.h"
#include "projection.h"
#include "surface_generator.h"
#include "vtk_writer.h"
#include "xml_writer.h"

#include "ops.h"

template<class S>
struct Tracked {
  std::shared_ptr<S> spline;
  ref::Model expected;
  std::string name;
};

// One random modification. Returns its description, empty if none was possible.
template<class S>
static std::string mutate(pbt::Src &s, S *spline, std::vector<std::shared_ptr<S>> *parts) {
  ref::Model cur = lib::snapshot(*spline, "before modification");
  int dir = s.range(0, cur.dim - 1), p = cur.p[dir];
  std::vector<double> b = gen::distinct(cur.k[dir]);
  std::ostringstream o;
  o.precision(17);
  int kind = s.weighted({4, 2, 2, 2, 2});
  bool continuous = true;
  for (size_t i = 1; i + 1 < b.size(); ++i) continuous = continuous && gen::multiplicity(cur.k[dir], b[i]) <= p;
  if (kind == 0 || (kind == 1 && b.size() < 3)) {
    bool is_knot;
    double u = gen::interior(s, cur.k[dir], &is_knot);
    if (gen::multiplicity(cur.k[dir], u) >= p || u <= b.front() || u >= b.back() || cur.total() > 150) return "";
    o << "insert " << u << " in direction " << dir;
    spline->InsertKnot(ParamCoord{u}, dir);
  } else if (kind == 1) {
    double u = b[1 + s.below(b.size() - 2)];
    o << "remove " << u << " in direction " << dir;
    spline->RemoveKnot(ParamCoord{u}, dir, 1e6 * std::max(1.0, cur.max_abs()));
  } else if (kind == 2) {
    if (!continuous || p > 3 || cur.total() > 120) return "";
    o << "elevate direction " << dir;
    spline->ElevateDegreeForDimension(dir);
  } else if (kind == 3) {
    if (!continuous || p < 2) return "";
    o << "reduce direction " << dir;
    spline->ReduceDegreeForDimension(dir, 1e6 * std::max(1.0, cur.max_abs()));
  } else {
    bool is_knot;
    double u = gen::interior(s, cur.k[dir], &is_knot);
    if (u <= b.front() || u >= b.back() || cur.total() > 150) return "";
    o << "subdivide direction " << dir << " at " << u;
    auto two = spline->SudivideSpline(ParamCoord{u}, dir);
    parts->push_back(two[0]);
    parts->push_back(two[1]);
  }
  return o.str();
}

template<class S>
static void require_unchanged(pbt::Src &s, const Tracked<S> &t, const std::string &after) {
  constexpr int D = lib::Traits<S>::dim;
  ref::Model now = lib::snapshot(*t.spline, t.name + " after " + after);
  PBT_REQUIRE(lib::same(now, t.expected), after << " changed " << t.name << " from " << t.expected.describe() << " to "
              << now.describe());
  // evaluation does not see a difference either (basis functions are stored separately from knots)
  if (t.expected.min_w() < 1e-3) return;
  std::vector<double> u = gen::params(s, t.expected);
  std::vector<double> x = t.spline->Evaluate(lib::coords<D>(u), lib::all_dims(t.expected.sd));
  for (int c = 0; c < t.expected.sd; ++c) {
    ref::Val r = t.expected.eval(u, c);
    PBT_REQUIRE(ref::close(x[c], r, 1e-9), after << " changed the evaluation of " << t.name << " at " << gen::str(u));
  }
}

template<class S>
static void copies(pbt::Src &s, const ref::Model &m) {
  std::vector<Tracked<S>> all;
  all.push_back({lib::make<S>(m), m, "original"});
  int steps = s.range(2, 8), mutations = 0;
  for (int step = 0; step < steps; ++step) {
    size_t i = s.below(all.size());
    if (all.size() == 1 || (all.size() < 5 && s.chance(35))) {
      auto c = std::make_shared<S>(*all[i].spline);
      std::string name = "copy " + std::to_string(all.size()) + " of (" + all[i].name + ")";
      s.note("copy of ", all[i].name);
      ref::Model got = lib::snapshot(*c, name);
      PBT_REQUIRE(lib::same(got, all[i].expected), name << " differs from its source: " << got.describe());
      all.push_back({c, got, name});
      continue;
    }
    std::vector<std::shared_ptr<S>> parts;
    std::string what = mutate<S>(s, all[i].spline.get(), &parts);
    if (what.empty()) continue;
    ++mutations;
    what += " on " + all[i].name;
    s.note(what);
    all[i].expected = lib::snapshot(*all[i].spline, what);
    bool usable = true;
    for (double v : all[i].expected.cp) usable = usable && std::isfinite(v);
    if (!usable || (m.rational && all[i].expected.min_w() < 1e-2 * m.min_w())) {  // destroyed on purpose by a huge tolerance
      for (size_t j = 0; j < all.size(); ++j) {
        if (j != i) require_unchanged<S>(s, all[j], what);
      }
      return;
    }
    for (size_t j = 0; j < all.size(); ++j) require_unchanged<S>(s, all[j], what);
    for (size_t j = 0; j < parts.size() && all.size() < 6; ++j) {
      all.push_back({parts[j], lib::snapshot(*parts[j], "part"), (j ? "upper part of " : "lower part of ") + all[i].name});
    }
  }
  if (mutations >= 2) s.nontrivial();
  s.label("copies");
}

template<class S>
static void read_only(pbt::Src &s, const ref::Model &m) {
  constexpr int D = lib::Traits<S>::dim;
  Tracked<S> t{lib::make<S>(m), m, "the spline"};
  std::any any = std::make_any<std::shared_ptr<S>>(t.spline);
  int kind = s.range(0, 7);
  std::string what, file = pbt::scratch() + "/out";
  s.nontrivial();
  s.label("read-only");
  if (kind == 0) {
    what = "comparison";
    auto c = std::make_shared<S>(*t.spline);
    t.spline->AreEqual(*c);
    t.spline->AreGeometricallyEqual(*c, 1e-6);
  } else if (kind == 1 && D <= 2) {
    what = "writing IGES";
    io::IGESWriter w;
    w.WriteFile({any}, file.c_str());
  } else if (kind == 2 && D <= 3) {
    what = "writing IRIT";
    io::IRITWriter w;
    w.WriteFile({any}, file.c_str());
  } else if (kind == 3) {
    what = "writing XML";
    io::XMLWriter w;
    w.WriteFile({any}, file.c_str());
  } else if (kind == 4 && D <= 3) {
    what = "writing VTK";
    io::VTKWriter w;
    w.WriteFile({any}, file.c_str(), {std::vector<int>(D, 2)});
  } else if (kind == 5 && (D == 1 || (D == 2 && m.sd == 3))) {
    what = "projection";
    std::vector<double> point(m.sd, 0.5);
    std::shared_ptr<spl::Spline<D>> base = t.spline;
    try {
      if constexpr (D == 1) spl::Projection<1>::ProjectionOnCurve(point, base);
      if constexpr (D == 2) spl::Projection<2>::ProjectionOnSurface(point, base, {4, 4});
    } catch (std::exception &) {
    }
  } else {
    what = "evaluation";
    std::vector<double> u = gen::params(s, m);
    t.spline->Evaluate(lib::coords<D>(u), lib::all_dims(m.sd));
    t.spline->EvaluateDerivative(lib::coords<D>(u), {0}, lib::ints<D>(std::vector<int>(D, 1)));
  }
  s.note(what);
  require_unchanged<S>(s, t, what);
  if constexpr (D == 1 && lib::Traits<S>::rational) {
    if (m.sd == 3 && s.chance(60)) {
      ref::Model pm = gen::model(s, 1, true, gen::limits(1));
      pm.sd = 3;
      pm.cp.resize(static_cast<size_t>(pm.total()) * 3, 0.25);
      Tracked<S> profile{lib::make<S>(pm), pm, "the profile"};
      s.note("sweep along the spline with profile ", pm.describe());
      spl::SurfaceGenerator g(t.spline, profile.spline);
      require_unchanged<S>(s, t, "sweeping");
      require_unchanged<S>(s, profile, "sweeping");
    }
  }
}

static void prop(pbt::Src &s) {
  int dim = s.weighted({3, 4, 1}) + 1;
  bool rational = s.chance(50);
  gen::Limits l = gen::limits(dim);
  l.max_degree = dim == 1 ? 4 : dim == 2 ? 3 : 2;
  l.max_spans = dim == 1 ? 4 : 3;
  l.max_points = 80;
  bool c = s.chance(70);
  if (!c) l.min_sd = l.max_sd = s.chance(70) ? 3 : s.range(1, 3);
  ref::Model m = gen::model(s, dim, rational, l);
  s.note(m.describe());
  lib::dispatch<3>(dim, rational, [&](auto *t) {
    using S = std::remove_pointer_t<decltype(t)>;
    if (c) {
      copies<S>(s, m);
    } else {
      read_only<S>(s, m);
    }
  });
}

PBT_MAIN("C12", prop, "random families of copies and parts of a spline under random modifications, each member compared "
         "bit by bit after every step, and read-only operations; non-trivial: two modifications or a read-only operation")

// C02: B-spline evaluation equals the tensor-product definition.
#include "lib.h"

template<class S>
static void check(pbt::Src &s, const ref::Model &m) {
  constexpr int D = lib::Traits<S>::dim;
  auto spline = lib::make<S>(m);
  if (s.chance(25)) spline = std::make_shared<S>(*spline);
  for (int rep = 0; rep < 4; ++rep) {
    std::vector<double> u = gen::params(s, m);
    std::vector<int> dims;
    int nd = s.range(1, m.sd + 1);
    for (int i = 0; i < nd; ++i) dims.push_back(s.range(0, m.sd - 1));
    std::vector<double> x = spline->Evaluate(lib::coords<D>(u), dims);
    PBT_REQUIRE(x.size() == dims.size(), "number of values " << x.size() << " for " << dims.size() << " coordinates");
    for (size_t i = 0; i < dims.size(); ++i) {
      ref::Val r = m.eval(u, dims[i]);
      PBT_REQUIRE(ref::close(x[i], r), "at " << gen::str(u) << " coordinate " << dims[i] << " is " << x[i] << " expected "
                  << static_cast<double>(r.v));
      // bounding box of the acting control points
      double lo = 1e300, hi = -1e300;
      for (int j = 0; j < m.total(); ++j) {
        auto t = m.tuple(j);
        bool acts = true;
        for (int d = 0; d < D; ++d) {
          int f = ref::span(m.k[d], u[d]) - m.p[d];
          acts = acts && t[d] >= f && t[d] <= f + m.p[d];
        }
        if (!acts) continue;
        lo = std::min(lo, m.cp[j * m.sd + dims[i]]);
        hi = std::max(hi, m.cp[j * m.sd + dims[i]]);
      }
      double tol = 1e-11 * (std::fabs(lo) + std::fabs(hi));
      PBT_REQUIRE(x[i] >= lo - tol && x[i] <= hi + tol, "value " << x[i] << " outside [" << lo << ", " << hi << "]");
    }
  }
  // a corner
  std::vector<double> u(D);
  std::vector<int> t(D);
  for (int d = 0; d < D; ++d) {
    bool high = s.chance(50);
    u[d] = high ? m.hi(d) : m.lo(d);
    t[d] = high ? m.n(d) - 1 : 0;
  }
  std::vector<double> x = spline->Evaluate(lib::coords<D>(u), lib::all_dims(m.sd));
  for (int c = 0; c < m.sd; ++c) {
    double e = m.cp[m.index(t) * m.sd + c];
    PBT_REQUIRE(std::fabs(x[c] - e) <= 1e-11 * std::fabs(e), "corner " << gen::str(u) << " coordinate " << c << " is " << x[c]
                << " expected " << e);
  }
}

static void prop(pbt::Src &s) {
  int dim = s.weighted({3, 3, 2, 2}) + 1;
  gen::Limits l = gen::limits(dim);
  l.extra_mult = s.chance(20) ? 1 : 0;
  ref::Model m = gen::model(s, dim, false, l);
  s.label("dim " + std::to_string(dim));
  if (m.total() > (1 << dim)) s.nontrivial();
  s.note(m.describe());
  lib::dispatch<4>(dim, false, [&](auto *t) {
    using S = std::remove_pointer_t<decltype(t)>;
    if constexpr (!lib::Traits<S>::rational) check<S>(s, m);
  });
}

PBT_MAIN("C02", prop, "random B-spline of dimension 1-4 evaluated at random parameters for random coordinate lists; "
         "non-trivial: more control points than corners")

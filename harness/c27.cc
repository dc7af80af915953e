// C27: KnotVector against a plain sorted list, over histories of insertions and removals.
#include <algorithm>

#include "knot_vector.h"

#include "gen.h"
#include "pbt.h"

static std::vector<ParamCoord> wrap(const std::vector<double> &v) {
  std::vector<ParamCoord> r;
  for (double x : v) r.emplace_back(ParamCoord{x});
  return r;
}

static void check(pbt::Src &s, const baf::KnotVector &k, const std::vector<double> &m, const std::string &op) {
  PBT_REQUIRE(k.GetNumberOfKnots() == m.size(), op << ": " << k.GetNumberOfKnots() << " knots, expected " << m.size());
  for (size_t i = 0; i < m.size(); ++i) {
    PBT_REQUIRE(k.GetKnot(i).get() == m[i], op << ": knot " << i << " is " << k.GetKnot(i).get() << ", expected " << m[i]
                                               << " in " << gen::str(m));
  }
  std::vector<double> it;
  for (const auto &x : k) it.push_back(x.get());
  PBT_REQUIRE(it == m, op << ": iteration gives " << gen::str(it));
  PBT_REQUIRE(k.GetLastKnot().get() == m.back(), op << ": last knot");
  std::vector<double> d = gen::distinct(m);
  PBT_REQUIRE(k.GetNumberOfDifferentKnots() == static_cast<int>(d.size()),
              op << ": " << k.GetNumberOfDifferentKnots() << " different knots in " << gen::str(m));
  for (double x : d) {
    PBT_REQUIRE(k.GetMultiplicity(ParamCoord{x}) == static_cast<size_t>(gen::multiplicity(m, x)),
                op << ": multiplicity of " << x << " is " << k.GetMultiplicity(ParamCoord{x}) << " in " << gen::str(m));
  }
  for (int i = 0; i < 6; ++i) {
    double u;
    switch (s.weighted({4, 2, 1})) {
      case 0: {
        size_t j = d.size() > 1 ? s.below(d.size() - 1) : 0;
        u = d.size() > 1 ? d[j] + (d[j + 1] - d[j]) * s.unit() : d[0];
        break;
      }
      case 1: u = d[s.below(d.size())]; break;
      default: u = s.chance(50) ? d.front() - s.pick<double>({1e-9, 1, 100}) : d.back() + s.pick<double>({1e-9, 1, 100});
    }
    bool in = u >= m.front() && u <= m.back();
    PBT_REQUIRE(k.IsInKnotVectorRange(ParamCoord{u}) == in, op << ": " << u << " in the range of " << gen::str(m));
    PBT_REQUIRE(k.GetMultiplicity(ParamCoord{u}) == static_cast<size_t>(gen::multiplicity(m, u)), op << ": multiplicity of "
                                                                                                     << u);
    bool last = u == m.back();
    if (!last && std::fabs(u - m.back()) < 1e-12) continue;
    PBT_REQUIRE(k.IsLastKnot(ParamCoord{u}) == last, op << ": " << u << " is last knot of " << gen::str(m));
    if (in && d.size() > 1) {
      int span = k.GetKnotSpan(ParamCoord{u}).get();
      PBT_REQUIRE(span == ref::span(m, u), op << ": span of " << u << " is " << span << ", expected " << ref::span(m, u)
                                              << " in " << gen::str(m));
    }
  }
}

static void prop(pbt::Src &s) {
  int p = s.range(0, 5);
  std::vector<double> m = gen::knots(s, p, s.range(1, 6), p + 1, false);
  if (s.chance(25)) {  // not clamped
    m = gen::breaks(s, s.range(1, 8), false);
    for (int i = s.range(0, 3); i > 0; --i) m.push_back(m[s.below(m.size())]);
    std::sort(m.begin(), m.end());
    s.label("unclamped");
  }
  s.note("knots ", gen::str(m));
  baf::KnotVector k(wrap(m));
  if (s.chance(30)) {
    std::vector<ParamCoord> w = wrap(m);
    k = baf::KnotVector(w.cbegin(), w.cend());
  }
  check(s, k, m, "construction");
  if (gen::distinct(m).size() > 2) s.nontrivial();
  int steps = s.range(1, 10);
  for (int i = 0; i < steps; ++i) {
    std::vector<double> d = gen::distinct(m);
    switch (s.weighted({4, 4, 1, 1, 2, 1})) {
      case 0: {
        double u;
        if (s.chance(50)) {
          u = d[s.below(d.size())];
        } else {
          size_t j = s.below(d.size() - 1);
          u = d[j] + (d[j + 1] - d[j]) * (0.01 + 0.98 * s.unit());
        }
        if (u != d.back() && d.back() - u < 1e-12) break;
        s.note("insert ", u);
        k.InsertKnot(ParamCoord{u});
        m.insert(std::upper_bound(m.begin(), m.end(), u), u);
        check(s, k, m, "after inserting " + std::to_string(u));
        break;
      }
      case 1: {
        double u = m[s.below(m.size())];
        if ((u == d.front() || u == d.back()) && (d.size() < 3 || gen::multiplicity(m, u) < 2)) break;
        s.note("remove ", u);
        k.RemoveKnot(ParamCoord{u});
        m.erase(std::find(m.begin(), m.end(), u));
        check(s, k, m, "after removing " + std::to_string(u));
        break;
      }
      case 2: {
        s.note("copy");
        baf::KnotVector c(k);
        PBT_REQUIRE(c == k && c.AreEqual(k, 1e-14), "a copy differs");
        c.InsertKnot(ParamCoord{d.front()});
        check(s, k, m, "after changing a copy");
        PBT_REQUIRE(!(c == k) && !(k == c), "knot vectors of different sizes are equal");
        baf::KnotVector a{ParamCoord{0}};
        a = k;
        check(s, a, m, "assigned");
        break;
      }
      case 3: {
        s.note("move");
        baf::KnotVector c(std::move(k));
        check(s, c, m, "moved");
        k = baf::KnotVector{};
        k = std::move(c);
        check(s, k, m, "move-assigned");
        break;
      }
      case 4: {  // comparison with one entry changed, differences
        std::vector<double> other = m;
        size_t j = s.below(other.size());
        double delta = s.pick<double>({1e-3, 1e-6, 1, 1e-12}) * (s.chance(50) ? 1 : -1);
        other[j] += delta;
        double real = std::fabs(other[j] - m[j]);
        double tol = real * s.pick<double>({0.5, 0.9, 1.1, 2, 10});
        s.note("compare with entry ", j, " changed by ", delta, " tolerance ", tol);
        baf::KnotVector o(wrap(other));
        if (real > 1e-13) PBT_REQUIRE(!(k == o) && !(o == k), "knot vectors differing by " << real << " are equal");
        PBT_REQUIRE(k.AreEqual(o, tol) == (real < tol) && o.AreEqual(k, tol) == (real < tol),
                    "difference " << real << " tolerance " << tol << ": " << k.AreEqual(o, tol));
        baf::KnotVector diff = k - o;
        PBT_REQUIRE(diff.GetNumberOfKnots() == m.size(), "size of the difference");
        for (size_t q = 0; q < m.size(); ++q) {
          PBT_REQUIRE(diff.GetKnot(q).get() == m[q] - other[q], "difference of entry " << q);
        }
        check(s, k, m, "after comparing");
        break;
      }
      default: {
        size_t j = s.below(m.size());
        PBT_REQUIRE(k[j].get() == m[j], "entry " << j);
        double lo = j == 0 ? m[0] : m[j - 1], hi = j + 1 == m.size() ? m[j] : m[j + 1];
        double x = lo + (hi - lo) * 0.5;
        if (j == 0 || j + 1 == m.size() || (x != m.back() && m.back() - x < 1e-12)) break;
        s.note("set entry ", j, " to ", x);
        k[j] = ParamCoord{x};
        m[j] = x;
        if (gen::distinct(m).size() < 2) throw pbt::Discard{};
        check(s, k, m, "after setting an entry");
      }
    }
  }
}

PBT_MAIN("C27", prop, "knot vector with at least one interior knot and a history of operations")

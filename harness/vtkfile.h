// Independent check of a VTK file against the splines it was sampled from.
#ifndef VERIF_VTKFILE_H_
#define VERIF_VTKFILE_H_

#include <set>

#include "iofmt.h"

namespace vtkfile {
using ref::Model;

// `abs_extra`: uncertainty of the geometry itself (it may come from a rounded file).
inline void check(const std::string &text, const std::vector<Model> &models, const std::vector<std::vector<int>> &scattering,
                  double extra, const std::string &where) {
  std::vector<std::string> l = iofmt::lines(text);
  PBT_REQUIRE(l.size() >= 5 && l[0].rfind("# vtk DataFile Version", 0) == 0, where << ": VTK header line missing");
  PBT_REQUIRE(l[2] == "ASCII", where << ": third line is '" << l[2] << "'");
  size_t start = text.find("DATASET");
  PBT_REQUIRE(start != std::string::npos, where << ": no DATASET");
  std::vector<std::string> t = iofmt::tokens(text.substr(start));
  size_t at = 0;
  auto next = [&]() -> const std::string & {
    PBT_REQUIRE(at < t.size(), where << ": file too short");
    return t[at++];
  };
  auto expect = [&](const std::string &w) {
    const std::string &g = next();
    PBT_REQUIRE(g == w, where << ": found '" << g << "' instead of '" << w << "'");
  };
  auto count = [&]() { return iofmt::integer(next(), where); };
  expect("DATASET");
  expect("UNSTRUCTURED_GRID");
  int points = 0, cells = 0, entries = 0;
  for (size_t i = 0; i < models.size(); ++i) {
    int p = 1, c = 1;
    for (int n : scattering[i]) {
      p *= n + 1;
      c *= n;
    }
    points += p;
    cells += c;
    entries += c * ((1 << models[i].dim) + 1);
  }
  expect("POINTS");
  int got_points = count();
  PBT_REQUIRE(got_points == points, where << ": POINTS " << got_points << " instead of " << points);
  next();  // data type
  for (size_t i = 0; i < models.size(); ++i) {
    const Model &m = models[i];
    std::vector<int> it(m.dim, 0);
    while (true) {
      std::vector<double> u(m.dim);
      for (int d = 0; d < m.dim; ++d) {
        double f = static_cast<double>(it[d]) / scattering[i][d];
        u[d] = it[d] == scattering[i][d] ? m.hi(d) : std::min(m.hi(d), m.lo(d) + f * (m.hi(d) - m.lo(d)));
      }
      for (int c = 0; c < 3; ++c) {
        double v = iofmt::number(next(), where);
        double want = 0, tol = 0;
        if (c < m.sd) {
          ref::Val r = m.eval(u, c);
          want = static_cast<double>(r.v);
          // the grid parameter itself is rounded
          double steep = 0, size = 2 * m.max_abs() * (m.rational ? m.max_w() / m.min_w() : 1);
          for (int d = 0; d < m.dim; ++d) {
            std::vector<double> b = gen::distinct(m.k[d]);
            double gap = b.back() - b.front();
            for (size_t q = 1; q < b.size(); ++q) gap = std::min(gap, b[q] - b[q - 1]);
            steep += std::max(std::fabs(m.lo(d)), std::fabs(m.hi(d))) * m.p[d] / gap;
          }
          tol = 2e-15 * steep * size + 1e-9 * static_cast<double>(r.mag) + 6e-6 * std::fabs(want) + extra * (1 + m.max_abs()) * (m.rational ? m.max_w() / m.min_w() : 1);
        }
        PBT_REQUIRE(std::isfinite(v) && std::fabs(v - want) <= tol, where << ": spline " << i << " grid point " << gen::str(it)
                    << " coordinate " << c << " is " << v << " instead of " << want);
      }
      int d = 0;
      while (d < m.dim && ++it[d] > scattering[i][d]) it[d++] = 0;
      if (d == m.dim) break;
    }
  }
  expect("CELLS");
  int got_cells = count(), got_entries = count();
  PBT_REQUIRE(got_cells == cells && got_entries == entries, where << ": CELLS " << got_cells << " " << got_entries
              << " instead of " << cells << " " << entries);
  int offset = 0;
  std::vector<int> types;
  for (size_t i = 0; i < models.size(); ++i) {
    const Model &m = models[i];
    std::vector<int> n = scattering[i];
    while (n.size() < 3) n.push_back(0);
    auto id = [&](int a, int b, int c) { return offset + a + (n[0] + 1) * (b + (n[1] + 1) * c); };
    std::multiset<std::vector<int>> want, got;
    int c_max = m.dim == 3 ? n[2] : 1, b_max = m.dim >= 2 ? n[1] : 1;
    for (int c = 0; c < c_max; ++c) {
      for (int b = 0; b < b_max; ++b) {
        for (int a = 0; a < n[0]; ++a) {
          std::vector<int> v = {id(a, b, c), id(a + 1, b, c)};
          if (m.dim >= 2) v.insert(v.end(), {id(a + 1, b + 1, c), id(a, b + 1, c)});
          if (m.dim == 3) v.insert(v.end(), {id(a, b, c + 1), id(a + 1, b, c + 1), id(a + 1, b + 1, c + 1), id(a, b + 1, c + 1)});
          want.insert(v);
        }
      }
    }
    for (size_t j = 0; j < want.size(); ++j) {
      int k = count();
      PBT_REQUIRE(k == 1 << m.dim, where << ": spline " << i << " cell " << j << " has " << k << " corners");
      std::vector<int> v;
      for (int q = 0; q < k; ++q) v.push_back(count());
      got.insert(v);
      types.push_back(m.dim == 1 ? 3 : m.dim == 2 ? 9 : 12);
    }
    if (got != want) {
      for (const auto &v : want) {
        PBT_REQUIRE(got.count(v) == 1, where << ": spline " << i << " cell with corners " << gen::str(v) << " occurs "
                    << got.count(v) << " times");
      }
      PBT_FAIL(where << ": spline " << i << " has other cells than its grid");
    }
    int p = 1;
    for (int q : scattering[i]) p *= q + 1;
    offset += p;
  }
  expect("CELL_TYPES");
  int got_types = count();
  PBT_REQUIRE(got_types == cells, where << ": CELL_TYPES " << got_types << " instead of " << cells);
  for (int type : types) {
    int g = count();
    PBT_REQUIRE(g == type, where << ": cell type " << g << " instead of " << type);
  }
  PBT_REQUIRE(at == t.size(), where << ": more text after the cell types: '" << t[at] << "'");
}

inline std::vector<int> scattering(pbt::Src &s, int dim) {
  std::vector<int> v;
  for (int d = 0; d < dim; ++d) v.push_back(s.chance(15) ? s.range(1, dim == 1 ? 40 : 9) : s.range(1, 4));
  return v;
}

}  // namespace vtkfile
#endif  // VERIF_VTKFILE_H_

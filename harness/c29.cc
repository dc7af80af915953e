// C29: isogeometric analysis assembles consistent, exact discrete operators.
#include "connectivity_handler.h"
#include "bdf_handler.h"
#include "poisson_problem.h"
#include "solution_vtk_writer.h"
#include "one_point_gauss_legendre.h"
#include "two_point_gauss_legendre.h"
#include "three_point_gauss_legendre.h"
#include "four_point_gauss_legendre.h"
#include "five_point_gauss_legendre.h"

#include "lib.h"
#include "vtkfile.h"

using ref::LD;
using ref::Model;

// Gauss-Legendre points and weights by Newton's method, increasing.
static std::vector<std::pair<LD, LD>> gauss(int n) {
  std::vector<std::pair<LD, LD>> r;
  for (int i = 0; i < n; ++i) {
    LD x = -std::cos(std::acos(-1.0L) * (i + 0.75L) / (n + 0.5L)), d = 1;
    for (int it = 0; it < 100; ++it) {
      LD a = 1, b = x;
      for (int k = 2; k <= n; ++k) {
        LD c = ((2 * k - 1) * x * b - (k - 1) * a) / k;
        a = b;
        b = c;
      }
      if (n == 1) a = 1;
      d = n * (x * b - a) / (x * x - 1);
      LD step = b / d;
      x -= step;
      if (std::fabs(step) < 1e-19L) break;
    }
    r.emplace_back(x, 2 / ((1 - x * x) * d * d));
  }
  return r;
}

static iga::itg::IntegrationRule rule(int n) {
  switch (n) {
    case 1: return iga::itg::OnePointGaussLegendre();
    case 2: return iga::itg::TwoPointGaussLegendre();
    case 3: return iga::itg::ThreePointGaussLegendre();
    case 4: return iga::itg::FourPointGaussLegendre();
    default: return iga::itg::FivePointGaussLegendre();
  }
}

struct Point {
  std::vector<double> u;
  LD weight = 1, jac = 0;
  std::vector<int> global;                  // indices of the non-zero functions
  std::vector<LD> value;                    // of each of them
  std::vector<std::vector<LD>> der, phys;   // [direction][function]
  std::vector<std::vector<LD>> kder, kphys;  // the same with the known finding, see known_findings.txt
};

// Determinant and inverse of a small matrix.
static LD inverse(std::vector<std::vector<LD>> a, std::vector<std::vector<LD>> *inv) {
  int n = static_cast<int>(a.size());
  LD det = 1;
  inv->assign(n, std::vector<LD>(n, 0));
  for (int i = 0; i < n; ++i) (*inv)[i][i] = 1;
  for (int c = 0; c < n; ++c) {
    int p = c;
    for (int r = c; r < n; ++r) {
      if (std::fabs(a[r][c]) > std::fabs(a[p][c])) p = r;
    }
    if (a[p][c] == 0) return 0;
    if (p != c) det = -det;
    std::swap(a[p], a[c]);
    std::swap((*inv)[p], (*inv)[c]);
    det *= a[c][c];
    LD f = 1 / a[c][c];
    for (int k = 0; k < n; ++k) {
      a[c][k] *= f;
      (*inv)[c][k] *= f;
    }
    for (int r = 0; r < n; ++r) {
      if (r == c) continue;
      LD g = a[r][c];
      for (int k = 0; k < n; ++k) {
        a[r][k] -= g * a[c][k];
        (*inv)[r][k] -= g * (*inv)[c][k];
      }
    }
  }
  return det;
}

// Integration points of one element. `square`: points have as many coordinates as there are directions.
static std::vector<Point> reference(const Model &m, const std::vector<int> &element, int n) {
  auto g = gauss(n);
  std::vector<Point> out;
  std::vector<int> it(m.dim, 0);
  while (true) {
    Point q;
    q.u.resize(m.dim);
    LD half = 1;
    std::vector<std::vector<std::vector<LD>>> b(2, std::vector<std::vector<LD>>(m.dim));
    std::vector<int> first(m.dim);
    for (int d = 0; d < m.dim; ++d) {
      auto x = gen::distinct(m.k[d]);
      LD lo = x[element[d]], hi = x[element[d] + 1];
      q.u[d] = static_cast<double>(((hi - lo) * g[it[d]].first + hi + lo) / 2);
      half *= (hi - lo) / 2;
      q.weight *= g[it[d]].second;
      std::vector<LD> mag;
      for (int o = 0; o < 2; ++o) ref::basis(m.k[d], m.p[d], q.u[d], o, &b[o][d], &mag);
      first[d] = ref::span(m.k[d], q.u[d]) - m.p[d];
    }
    LD w = 0;
    std::vector<LD> dw(m.dim, 0);
    std::vector<LD> num;
    std::vector<std::vector<LD>> dnum(m.dim);
    std::vector<int> loc(m.dim, 0);
    while (true) {
      std::vector<int> idx(m.dim);
      for (int d = 0; d < m.dim; ++d) idx[d] = first[d] + loc[d];
      int i = m.index(idx);
      q.global.push_back(i);
      LD v = m.w[i];
      for (int d = 0; d < m.dim; ++d) v *= b[0][d][idx[d]];
      num.push_back(v);
      w += v;
      for (int e = 0; e < m.dim; ++e) {
        LD x = m.w[i];
        for (int d = 0; d < m.dim; ++d) x *= b[d == e][d][idx[d]];
        dnum[e].push_back(x);
        dw[e] += x;
      }
      int d = 0;
      while (d < m.dim && ++loc[d] > m.p[d]) loc[d++] = 0;
      if (d == m.dim) break;
    }
    q.der.resize(m.dim);
    q.phys.resize(m.dim);
    q.kder.resize(m.dim);
    q.kphys.resize(m.dim);
    for (size_t i = 0; i < num.size(); ++i) {
      q.value.push_back(num[i] / w);
      for (int e = 0; e < m.dim; ++e) q.der[e].push_back((dnum[e][i] - num[i] / w * dw[e]) / w);
      bool first_ones = static_cast<int>(i) < m.dim;
      for (int e = 0; e < m.dim; ++e) {
        q.kder[e].push_back(first_ones ? (dnum[e][i] - num[i] / (w * w) * dw[e]) / w : dnum[e][i]);
      }
    }
    // dx/dxi, Gram determinant and (leading square part) inverse
    std::vector<std::vector<LD>> dx(m.sd, std::vector<LD>(m.dim, 0));
    for (int c = 0; c < m.sd; ++c) {
      for (int e = 0; e < m.dim; ++e) {
        for (size_t i = 0; i < num.size(); ++i) dx[c][e] += q.der[e][i] * m.cp[q.global[i] * m.sd + c];
      }
    }
    std::vector<std::vector<LD>> gram(m.dim, std::vector<LD>(m.dim, 0)), inv;
    for (int a = 0; a < m.dim; ++a) {
      for (int e = 0; e < m.dim; ++e) {
        for (int c = 0; c < m.sd; ++c) gram[a][e] += dx[c][a] * dx[c][e];
      }
    }
    q.jac = std::sqrt(std::fabs(inverse(gram, &inv))) * half;
    if (m.sd >= m.dim) {
      dx.resize(m.dim);
      LD det = inverse(dx, &inv), size = 1;
      for (int a = 0; a < m.dim; ++a) {
        LD row = 0;
        for (int e = 0; e < m.dim; ++e) row += std::fabs(dx[a][e]) * (m.hi(e) - m.lo(e));
        size *= row / (m.hi(a) - m.lo(a));
      }
      if (!(std::fabs(det) > 0.02L * size)) throw pbt::Discard{};  // (nearly) degenerate mapping
      for (int a = 0; a < m.dim; ++a) {
        for (size_t i = 0; i < num.size(); ++i) {
          LD v = 0, kv = 0;
          for (int e = 0; e < m.dim; ++e) {
            v += q.der[e][i] * inv[e][a];
            kv += q.kder[e][i] * inv[e][a];
          }
          q.phys[a].push_back(v);
          q.kphys[a].push_back(kv);
        }
      }
    }
    out.push_back(q);
    int d = 0;
    while (d < m.dim && ++it[d] == n) it[d++] = 0;
    if (d == m.dim) break;
  }
  return out;
}

static LD largest(const std::vector<LD> &v) {
  LD r = 0;
  for (LD x : v) r = std::max(r, std::fabs(x));
  return r;
}

static const double kTol = 1e-9;

static void same(double got, LD want, LD scale, const std::string &what) {
  PBT_REQUIRE(std::isfinite(got) && std::fabs(got - want) <= kTol * scale,
              what << " is " << got << ", expected " << static_cast<double>(want));
}

template<int D>
static std::vector<std::vector<int>> elements(const Model &m) {
  std::vector<int> count(D), it(D, 0);
  for (int d = 0; d < D; ++d) count[d] = static_cast<int>(gen::distinct(m.k[d]).size()) - 1;
  std::vector<std::vector<int>> out;
  while (true) {
    out.push_back(it);
    int d = 0;
    while (d < D && ++it[d] == count[d]) it[d++] = 0;
    if (d == D) break;
  }
  return out;
}

static bool unit_weights(const Model &m) { return m.max_w() == 1 && m.min_w() == 1; }

// Whether the derivatives at this point are those of the known finding rather than the right ones.
template<class P>
static bool has_known_derivatives(const Point &q, const P &got) {
  bool right = true, known = true;
  for (size_t d = 0; d < q.der.size(); ++d) {
    if (got.GetNumberOfNonZeroBasisFunctionDerivatives(static_cast<int>(d)) != static_cast<int>(q.der[d].size())) return false;
    for (size_t j = 0; j < q.der[d].size(); ++j) {
      double g = got.GetBasisFunctionDerivativeValue(static_cast<int>(j), static_cast<int>(d));
      if (!(std::fabs(g - q.der[d][j]) <= kTol * largest(q.der[d]))) right = false;
      if (!(std::fabs(g - q.kder[d][j]) <= kTol * largest(q.kder[d]))) known = false;
    }
  }
  return known && !right;
}

// Elements, connectivity, integration points, functions and derivatives. Returns the reference of all points.
template<int D>
static std::vector<std::vector<Point>> local(pbt::Src &s, const Model &m, std::shared_ptr<spl::NURBS<D>> spline, int n,
                                             bool *known) {
  auto els = elements<D>(m);
  iga::elm::ElementGenerator<D> gen(spline);
  iga::ConnectivityHandler<D> connectivity(spline);
  iga::BasisFunctionHandler<D> functions(spline);
  iga::MappingHandler<D> mapping(spline);
  iga::itg::IntegrationRule r = rule(n);
  PBT_REQUIRE(gen.GetNumberOfElements() == static_cast<int>(els.size()), "number of elements " << gen.GetNumberOfElements());
  for (int d = 0; d < D; ++d) {
    auto b = gen::distinct(m.k[d]);
    auto list = gen.GetElementList(d);
    PBT_REQUIRE(list.size() + 1 == b.size() && gen.GetNumElementsPerParamDir()[d] == static_cast<int>(list.size()),
                "elements of direction " << d << ": " << list.size());
    for (size_t i = 0; i < list.size(); ++i) {
      PBT_REQUIRE(list[i].GetLowerBound().get() == b[i] && list[i].GetUpperBound().get() == b[i + 1],
                  "element " << i << " of direction " << d << " is [" << list[i].GetLowerBound().get() << ","
                             << list[i].GetUpperBound().get() << "]");
    }
  }
  std::vector<std::vector<Point>> out;
  for (size_t e = 0; e < els.size(); ++e) {
    std::string where = "element " + std::to_string(e);
    int num = static_cast<int>(e);
    PBT_REQUIRE(gen.GetElementIndices(num) == lib::ints<D>(els[e]) && gen.Get1DElementIndex(lib::ints<D>(els[e])) == num,
                where << ": numbering of elements");
    std::vector<Point> pts = reference(m, els[e], n);
    auto values = functions.EvaluateAllElementNonZeroNURBSBasisFunctions(num, r);
    auto ders = functions.EvaluateAllElementNonZeroNURBSBasisFunctionDerivatives(num, r);
    PBT_REQUIRE(values.size() == pts.size() && ders.size() == pts.size(), where << ": number of integration points");
    auto phys = m.sd >= D ? functions.EvaluateAllElementNonZeroNURBSBafDerivativesPhysical(num, r) : ders;
    PBT_REQUIRE(phys.size() == pts.size(), where << ": number of integration points (physical)");
    if (e == 0) *known = !unit_weights(m) && has_known_derivatives(pts[0], ders[0]);
    if (*known) {
      for (auto &q : pts) {
        q.der = q.kder;
        q.phys = q.kphys;
      }
    }
    for (size_t i = 0; i < pts.size(); ++i) {
      const Point &q = pts[i];
      std::string at = where + ", integration point " + std::to_string(i);
      int count = static_cast<int>(q.value.size());
      PBT_REQUIRE(gen.GetElementNumberAtParamCoord(lib::coords<D>(q.u)) == num, at << ": element found there");
      PBT_REQUIRE(values[i].GetNumberOfNonZeroBasisFunctions() == count, at << ": number of functions");
      for (auto *x : {&values[i], &ders[i], &phys[i]}) {
        same(x->GetWeight(), q.weight, q.weight, at + ": weight");
        same(x->GetJacobianDeterminant(), q.jac, q.jac, at + ": Jacobian determinant");
      }
      std::vector<double> all = values[i].GetNonZeroBasisFunctions();
      for (int j = 0; j < count; ++j) {
        std::string f = at + ", function " + std::to_string(j);
        if (i == 0) {
          PBT_REQUIRE(connectivity.GetGlobalIndex(num, j) == q.global[j] + 1, f << ": global index "
                      << connectivity.GetGlobalIndex(num, j) << ", expected " << q.global[j] + 1);
        }
        same(values[i].GetBasisFunctionValue(j), q.value[j], 1, f + ": value");
        same(all[j], q.value[j], 1, f + ": value in the list");
        for (int d = 0; d < D; ++d) {
          std::string g = f + ": derivative " + std::to_string(d);
          PBT_REQUIRE(ders[i].GetNumberOfNonZeroBasisFunctionDerivatives(d) == count, g << ": number");
          same(ders[i].GetBasisFunctionDerivativeValue(j, d), q.der[d][j], largest(q.der[d]), g);
          if (m.sd >= D) {
            LD scale = 0;
            for (int a = 0; a < D; ++a) scale = std::max(scale, largest(q.phys[a]));
            same(phys[i].GetBasisFunctionDerivativeValue(j, d), q.phys[d][j], scale, g + " (physical)");
          }
        }
      }
    }
    out.push_back(pts);
  }
  return out;
}

struct System {
  int n;
  std::vector<LD> a, mass, b;
};

static System assemble(const Model &m, const std::vector<std::vector<Point>> &pts, const std::vector<double> &src, double k) {
  System y;
  y.n = m.total();
  y.a.assign(y.n * y.n, 0);
  y.mass = y.a;
  y.b.assign(y.n, 0);
  for (auto &el : pts) {
    for (auto &q : el) {
      LD f = q.weight * q.jac, v = 0;
      for (size_t i = 0; i < q.value.size(); ++i) v += q.value[i] * src[q.global[i]];
      for (size_t i = 0; i < q.value.size(); ++i) {
        y.b[q.global[i]] += q.value[i] * v * f;
        for (size_t j = 0; j < q.value.size(); ++j) {
          LD t = 0;
          for (int d = 0; d < m.dim; ++d) t += q.phys[d][i] * q.phys[d][j];
          y.a[q.global[i] * y.n + q.global[j]] += t * f * k;
          y.mass[q.global[i] * y.n + q.global[j]] += q.value[i] * q.value[j] * f;
        }
      }
    }
  }
  return y;
}

static void same_matrix(const arma::dmat &a, const std::vector<LD> &b, int n, const std::string &what) {
  PBT_REQUIRE(static_cast<int>(a.n_rows) == n && static_cast<int>(a.n_cols) == n, what << ": size");
  LD scale = largest(b);
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j) {
      same(a(i, j), b[i * n + j], scale, what + " entry (" + std::to_string(i) + "," + std::to_string(j) + ")");
    }
  }
}
static void same_vector(const arma::dvec &a, const std::vector<LD> &b, LD scale, const std::string &what) {
  PBT_REQUIRE(a.n_elem == b.size(), what << ": size");
  scale = std::max(scale, largest(b));
  for (size_t i = 0; i < b.size(); ++i) same(a(i), b[i], scale, what + " entry " + std::to_string(i));
}
static std::shared_ptr<arma::dvec> vec(const std::vector<double> &v) {
  auto r = std::make_shared<arma::dvec>(v.size(), arma::fill::zeros);
  for (size_t i = 0; i < v.size(); ++i) (*r)(i) = v[i];
  return r;
}
static std::vector<double> values(pbt::Src &s, int n) {
  std::vector<double> v(n);
  for (auto &x : v) x = s.pick<double>({1, 0, -2, 0.5, 3});
  return v;
}
static bool boundary(const Model &m, int i) {
  auto t = m.tuple(i);
  for (int d = 0; d < m.dim; ++d) {
    if (t[d] == 0 || t[d] == m.n(d) - 1) return true;
  }
  return false;
}

// Solution x of a system, judged by its residual.
static void solves(const arma::dvec &x, const std::vector<LD> &a, const std::vector<LD> &b, const std::string &what) {
  size_t n = b.size();
  PBT_REQUIRE(x.n_elem == n, what << ": size " << x.n_elem);
  LD na = 0, nb = largest(b), nx = 0;
  for (size_t i = 0; i < n; ++i) {
    LD row = 0;
    for (size_t j = 0; j < n; ++j) row += std::fabs(a[i * n + j]);
    na = std::max(na, row);
    PBT_REQUIRE(std::isfinite(x(i)), what << ": not a number");
    nx = std::max(nx, static_cast<LD>(std::fabs(x(i))));
  }
  for (size_t i = 0; i < n; ++i) {
    LD r = -b[i];
    for (size_t j = 0; j < n; ++j) r += a[i * n + j] * x(j);
    PBT_REQUIRE(std::fabs(r) <= 1e-8L * (na * nx + nb), what << ": residual " << static_cast<double>(r) << " in row " << i);
  }
}

static void operators(pbt::Src &s, const Model &m, std::shared_ptr<spl::NURBS<2>> spline,
                      const std::vector<std::vector<Point>> &pts, int n, bool known) {
  iga::itg::IntegrationRule r = rule(n);
  iga::ElementIntegralCalculator<2> calc(spline);
  iga::LinearEquationAssembler<2> assembler(spline);
  double k = s.chance(50) ? 1 : s.pick<double>({2, 0.5, 3.5});
  std::vector<double> src = values(s, m.total());
  System y = assemble(m, pts, src, k);
  auto a = std::make_shared<arma::dmat>(y.n, y.n, arma::fill::zeros);
  auto b = std::make_shared<arma::dvec>(y.n, arma::fill::zeros);
  if (k == 1) {
    assembler.GetLeftSide(r, a, calc);
  } else {
    assembler.GetLeftSide(r, a, calc, k);
  }
  assembler.GetRightSide(r, b, calc, vec(src));
  same_matrix(*a, y.a, y.n, "Laplace matrix");
  same_vector(*b, y.b, largest(y.mass), "right side");
  // laws that do not need the reference: symmetric, constants in the kernel, linear fields
  LD scale = largest(y.a), area = 0;
  for (auto &el : pts) {
    for (auto &q : el) area += q.weight * q.jac;
  }
  std::vector<double> sum(m.sd * m.sd, 0);
  for (int i = 0; i < y.n; ++i) {
    double row = 0;
    for (int j = 0; j < y.n; ++j) {
      row += (*a)(i, j);
      PBT_REQUIRE(std::fabs((*a)(i, j) - (*a)(j, i)) <= kTol * scale, "Laplace matrix not symmetric at " << i << "," << j);
      for (int c = 0; c < 2; ++c) {
        for (int d = 0; d < 2; ++d) sum[c * 2 + d] += m.cp[i * m.sd + c] * (*a)(i, j) * m.cp[j * m.sd + d];
      }
    }
    if (known) continue;
    PBT_REQUIRE(std::fabs(row) <= kTol * scale * y.n, "Laplace matrix: row " << i << " sums to " << row);
  }
  double xx = m.max_abs() * m.max_abs() * y.n * y.n;
  for (int c = 0; c < 2 && !known; ++c) {
    for (int d = 0; d < 2; ++d) {
      LD want = c == d ? k * area : 0;
      PBT_REQUIRE(std::fabs(sum[c * 2 + d] - want) <= kTol * (scale * xx + area), "linear fields " << c << "," << d << ": energy "
                  << sum[c * 2 + d] << ", expected " << static_cast<double>(want));
    }
  }
  // time discretisation
  double dt = s.pick<double>({0.1, 1, 0.25});
  iga::BDFHandler<2> bdf(spline, r);
  auto left = bdf.GetBDF1LeftSide(a, dt);
  std::vector<LD> want = y.a;
  for (size_t i = 0; i < want.size(); ++i) want[i] += y.mass[i] / dt;
  same_matrix(*left, want, y.n, "BDF matrix");
  std::vector<double> prev = values(s, y.n);
  std::vector<LD> rhs = y.b;
  for (int i = 0; i < y.n; ++i) {
    for (int j = 0; j < y.n; ++j) rhs[i] += y.mass[i * y.n + j] / dt * prev[j];
  }
  same_vector(*bdf.GetBDF1RightSide(b, vec(prev), dt), rhs, largest(y.mass) / dt * 3, "BDF right side");
  // boundary
  auto conn = assembler.GetBoundarySplineConnectivity();
  bool same_space = m.p[0] == m.p[1] && m.k[0] == m.k[1], thrown = false;
  std::array<std::array<std::shared_ptr<spl::NURBS<1>>, 2>, 2> splines;
  if (same_space || m.n(0) == m.n(1)) {
    splines = assembler.GetBoundarySplines();
  } else {
    try {
      splines = assembler.GetBoundarySplines();
    } catch (const std::exception &) {
      thrown = true;  // known finding: the other direction's knots do not fit the number of points
      s.label("known: boundary");
    }
  }
  std::array<std::array<std::shared_ptr<arma::dvec>, 2>, 2> flux;
  std::vector<LD> nb(y.n, 0);
  LD flux_scale = 0;
  for (int d = 0; d < 2; ++d) {
    for (int side = 0; side < 2; ++side) {
      std::string where = "boundary " + std::to_string(side) + " of direction " + std::to_string(d);
      std::vector<int> idx;
      Model e;
      e.dim = 1;
      e.sd = m.sd;
      e.rational = true;
      e.p = {m.p[1 - d]};
      e.k = {m.k[1 - d]};
      for (int i = 0; i < y.n; ++i) {
        if (m.tuple(i)[d] != (side == 0 ? 0 : m.n(d) - 1)) continue;
        idx.push_back(i);
        e.w.push_back(m.w[i]);
        for (int c = 0; c < m.sd; ++c) e.cp.push_back(m.cp[i * m.sd + c]);
      }
      PBT_REQUIRE(conn[d][side] == idx, where << ": connectivity");
      if (thrown) continue;
      Model snap = lib::snapshot(*splines[d][side], where);
      if (d == 0 && !same_space && !lib::same(snap, e)) {
        e.p = {m.p[0]};  // known finding: degree and knots of the wrong direction
        e.k = {m.k[0]};
        s.label("known: boundary");
      }
      PBT_REQUIRE(lib::same(snap, e), where << ": spline");
      std::vector<double> f = values(s, static_cast<int>(idx.size()));
      flux[d][side] = vec(f);
      for (auto &el : elements<1>(e)) {
        for (auto &q : reference(e, el, n)) {
          LD v = 0;
          for (size_t i = 0; i < q.value.size(); ++i) v += q.value[i] * f[q.global[i]];
          for (size_t i = 0; i < q.value.size(); ++i) {
            nb[idx[q.global[i]]] += q.value[i] * v * q.weight * q.jac;
            flux_scale = std::max(flux_scale, 3 * q.weight * q.jac);
          }
        }
      }
    }
  }
  if (!thrown) {
    auto nv = std::make_shared<arma::dvec>(y.n, arma::fill::zeros);
    assembler.GetRightSideNeumann(r, nv, flux);
    same_vector(*nv, nb, flux_scale, "Neumann right side");
  }
  // boundary conditions
  std::vector<double> bc;
  for (int i = 0; i < y.n; ++i) {
    if (boundary(m, i)) bc.push_back(s.pick<double>({0, 1, -1.5, 2}));
  }
  bool dirichlet = s.chance(50);
  if (dirichlet) {
    assembler.SetDirichletBC(a, b, vec(bc));
  } else if (s.chance(30)) {
    assembler.SetDirichletBC(a, b);
  } else {
    assembler.SetZeroBC(a, b);
  }
  std::vector<LD> ya = y.a, yb = y.b;
  int count = 0;
  auto fix = [&](std::vector<LD> *mat, std::vector<LD> *v, bool given) {
    count = 0;
    for (int i = 0; i < y.n; ++i) {
      if (!boundary(m, i)) continue;
      for (int j = 0; j < y.n; ++j) (*mat)[i * y.n + j] = i == j ? 1 : 0;
      (*v)[i] = given ? bc[count] : 0;
      ++count;
    }
  };
  fix(&ya, &yb, dirichlet);
  same_matrix(*a, ya, y.n, "matrix with boundary conditions");
  same_vector(*b, yb, largest(y.mass), "right side with boundary conditions");
  // complete problems
  if (n > std::max(m.p[0], m.p[1]) && s.chance(50)) {
    s.label("solved");
    System one = assemble(m, pts, std::vector<double>(y.n, 1), 1);
    if (s.chance(60)) {
      iga::PoissonProblem<2> problem(spline, r);
      std::vector<LD> pa = one.a, pb = one.b;
      fix(&pa, &pb, false);
      solves(problem.GetSteadyStateSolution(), pa, pb, "steady state");
    } else {
      iga::PoissonProblem<2> problem(spline, r);
      int steps = s.range(1, 3);
      auto sol = problem.GetUnsteadyStateSolution(dt, dt * (steps + 0.5), dirichlet ? vec(bc) : nullptr);
      PBT_REQUIRE(static_cast<int>(sol.size()) == steps + 1, "number of time steps " << sol.size());
      for (int i = 0; i < y.n; ++i) PBT_REQUIRE((*sol[0])(i) == 0, "initial state not zero");
      for (int t = 1; t <= steps; ++t) {
        std::vector<LD> pa = one.a, pb = one.b;
        for (int i = 0; i < y.n; ++i) {
          for (int j = 0; j < y.n; ++j) {
            pa[i * y.n + j] += one.mass[i * y.n + j] / dt;
            pb[i] += one.mass[i * y.n + j] / dt * (*sol[t - 1])(j);
          }
        }
        fix(&pa, &pb, dirichlet);
        solves(*sol[t], pa, pb, "time step " + std::to_string(t));
      }
    }
  }
  // solution as a spline and as a file
  arma::dvec x = *vec(values(s, y.n));
  Model sm = m;
  sm.sd = m.sd + 1;
  sm.cp.clear();
  for (int i = 0; i < y.n; ++i) {
    for (int c = 0; c < m.sd; ++c) sm.cp.push_back(m.cp[i * m.sd + c]);
    sm.cp.push_back(x(i));
  }
  iga::SolutionSpline<2> ss(spline, x);
  PBT_REQUIRE(lib::same(lib::snapshot(*ss.GetSolutionSpline(), "solution spline"), sm), "solution spline");
  if (s.chance(30)) {
    s.label("file");
    std::vector<std::vector<int>> scattering = {{s.range(1, 4), s.range(1, 4)}};
    std::string file = pbt::scratch() + "/solution.vtk";
    for (int d = 0; d < 2; ++d) {
      double step = (m.hi(d) - m.lo(d)) / scattering[0][d];
      if (m.lo(d) + scattering[0][d] * step > m.hi(d)) return;  // known finding: leaves the knot range by rounding
    }
    iga::SolutionVTKWriter<2>().WriteSolutionToVTK(spline, x, scattering, file);
    std::string text = iofmt::read_text(file);
    size_t at = text.find("POINT_DATA");
    PBT_REQUIRE(at != std::string::npos, "no POINT_DATA in the file");
    vtkfile::check(text.substr(0, at), {m}, scattering, 1e-9, "solution file");
    auto t = iofmt::tokens(text.substr(at));
    size_t points = (scattering[0][0] + 1) * (scattering[0][1] + 1), head = 8;
    PBT_REQUIRE(t.size() == head + points && iofmt::integer(t[1], "POINT_DATA") == static_cast<int>(points),
                "POINT_DATA has " << t.size() << " entries for " << points << " points");
    for (size_t i = 0; i < points; ++i) {
      std::vector<double> u(2);
      for (int d = 0; d < 2; ++d) {
        int c = static_cast<int>(d == 0 ? i % (scattering[0][0] + 1) : i / (scattering[0][0] + 1));
        u[d] = c == scattering[0][d] ? m.hi(d) : std::min(m.hi(d), m.lo(d) + (m.hi(d) - m.lo(d)) * c / scattering[0][d]);
      }
      ref::Val v = sm.eval(u, m.sd);
      double g = iofmt::number(t[head + i], "POINT_DATA");
      PBT_REQUIRE(std::fabs(g - v.v) <= 1e-5 * std::fabs(v.v) + 1e-7, "solution at point " << i << " is " << g << ", expected "
                  << static_cast<double>(v.v));
    }
  }
}

static Model geometry(pbt::Src &s, int dim) {
  Model m;
  m.dim = dim;
  m.rational = true;
  m.sd = s.weighted({7, 3}) == 0 ? dim : 3;
  m.sd = std::max(m.sd, dim);
  int budget = pbt::thorough() ? (dim == 3 ? 80 : 60) : (dim == 3 ? 18 : 25);
  std::vector<std::vector<double>> greville(dim);
  for (int d = 0; d < dim; ++d) {
    int p = s.range(1, dim == 3 ? 2 : 3), spans = s.range(1, dim == 3 ? 2 : pbt::thorough() ? 4 : 3);
    auto k = gen::knots(s, p, spans, p, false);
    if (d > 0 && s.chance(40)) {  // the same space in both directions
      p = m.p[0];
      k = m.k[0];
    }
    if (static_cast<int>(k.size()) - p - 1 > budget) {
      std::vector<double> one;
      for (int i = 0; i < 2 * p + 2; ++i) one.push_back(i <= p ? 0 : 1);
      k = one;
    }
    budget = std::max(2, budget / (static_cast<int>(k.size()) - p - 1));
    m.p.push_back(p);
    m.k.push_back(k);
    double len = s.pick<double>({1, 2, 0.5, 3}), lo = s.pick<double>({0, -1, 2});
    for (int i = 0; i < m.n(d); ++i) {
      double g = 0;
      for (int j = 1; j <= p; ++j) g += k[i + j];
      greville[d].push_back(lo + len * (g / p - k.front()) / (k.back() - k.front()));
    }
  }
  int wk = s.weighted({3, 2, 4});
  double pert = s.weighted({2, 6}) == 0 ? 0 : 0.2;
  bool swap = s.chance(15);  // mirrored orientation
  for (int i = 0; i < m.total(); ++i) {
    auto t = m.tuple(i);
    for (int c = 0; c < m.sd; ++c) {
      int d = swap && c < 2 && dim >= 2 ? 1 - c : c;
      double x = 0;
      if (c < dim) {
        auto &g = greville[d];
        double h = 1e300;
        if (t[d] > 0) h = std::min(h, g[t[d]] - g[t[d] - 1]);
        if (t[d] + 1 < m.n(d)) h = std::min(h, g[t[d] + 1] - g[t[d]]);
        x = g[t[d]] + pert * h * (s.unit() - 0.5) * 2;
      } else if (s.chance(50)) {
        x = 0.1 * (s.unit() - 0.5);
      }
      m.cp.push_back(x);
    }
    m.w.push_back(wk == 0 ? 1 : wk == 1 ? 2 : 0.5 + 1.5 * s.unit());
  }
  return m;
}

static void prop(pbt::Src &s) {
  int dim = s.weighted({1, 8, 1}) + 1;
  Model m = geometry(s, dim);
  int n = 1 + s.weighted({4, 4, 4, 2, 1});
  s.note("geometry ", m.describe());
  s.note("integration rule with ", n, " points");
  s.label("dimension " + std::to_string(dim));
  if (m.total() > 4 && m.max_w() > m.min_w()) s.nontrivial();
  bool known = false;
  if (dim == 1) {
    local<1>(s, m, lib::make<spl::NURBS<1>>(m), n, &known);
  } else if (dim == 3) {
    local<3>(s, m, lib::make<spl::NURBS<3>>(m), std::min(n, 2), &known);
  } else {
    auto spline = lib::make<spl::NURBS<2>>(m);
    auto pts = local<2>(s, m, spline, n, &known);
    operators(s, m, spline, pts, n, known);
    PBT_REQUIRE(lib::same(lib::snapshot(*spline, "geometry"), m), "the geometry changed");
  }
  if (known) s.label("known: derivatives");
}

PBT_MAIN("C29", prop, "patches with more than four control points and different weights")

// C24: the square generator and the random spline generators give valid splines with the promised shape.
// The random generators keep a static engine, so every case runs in a child process that starts with a fresh one.
#include <sys/wait.h>
#include <unistd.h>

#include "random_b_spline_generator.h"
#include "random_nurbs_generator.h"
#include "square_generator.h"

#include "lib.h"

static void square(pbt::Src &s) {
  int p = s.range(1, pbt::thorough() ? 8 : 6);
  int spans = s.chance(80) ? s.range(1, 12) : s.range(1, 40);
  int n = 2 * p + 1 + spans;
  s.note("square of degree ", p, " with ", n, " knots");
  s.label("square");
  if (spans > 1) s.nontrivial();
  auto sq = spl::SquareGenerator(Degree{p}, static_cast<uint64_t>(n)).CreateSquare();
  ref::Model m = lib::snapshot(*sq, "square");
  PBT_REQUIRE(m.sd == 2, "space dimension " << m.sd);
  int c = n - p - 1;
  for (int d = 0; d < 2; ++d) {
    PBT_REQUIRE(m.p[d] == p, "degree " << m.p[d]);
    PBT_REQUIRE(static_cast<int>(m.k[d].size()) == n, m.k[d].size() << " knots");
    for (int i = 0; i < n; ++i) {
      double want = i <= p ? 0 : i >= n - p - 1 ? 1 : (i - p) / static_cast<double>(spans);
      PBT_REQUIRE(std::fabs(m.k[d][i] - want) <= (i <= p || i >= n - p - 1 ? 0 : 1e-12),
                  "knot " << i << " is " << m.k[d][i] << ", expected " << want);
    }
  }
  for (int i = 0; i < c * c; ++i) {
    double x = -1 + 2.0 * (i % c) / (c - 1), y = -1 + 2.0 * (i / c) / (c - 1);
    PBT_REQUIRE(std::fabs(m.cp[2 * i] - x) <= 1e-12 && std::fabs(m.cp[2 * i + 1] - y) <= 1e-12,
                "control point " << i << " is (" << m.cp[2 * i] << "," << m.cp[2 * i + 1] << "), expected (" << x << "," << y
                                 << ")");
  }
  std::vector<std::vector<double>> us;
  for (int i = 0; i < 3; ++i) us.push_back(gen::params(s, m));
  if (p <= 4) lib::require_geometry(*sq, m, us, 1e-13, 0, "square");
}

template<class S, class G>
static void random_spline(double lo, double hi, int max_degree, int sd, int call, double u01) {
  constexpr int D = lib::Traits<S>::dim;
  std::string where = "generator call " + std::to_string(call);
  G g(std::array<ParamCoord, 2>{ParamCoord{lo}, ParamCoord{hi}}, max_degree, sd);
  S sp(g);
  ref::Model m = lib::snapshot(sp, where);
  lib::require_clamped(m, where);
  lib::require_finite(m, where);
  PBT_REQUIRE(m.sd == sd, where << ": space dimension " << m.sd << " instead of " << sd);
  for (int d = 0; d < D; ++d) {
    PBT_REQUIRE(m.p[d] >= 1 && m.p[d] <= max_degree, where << ": degree " << m.p[d] << " with maximum " << max_degree);
    PBT_REQUIRE(m.k[d].front() == lo && m.k[d].back() == hi, where << ": knots " << gen::str(m.k[d]));
    for (size_t i = m.p[d] + 1; i + m.p[d] < m.k[d].size(); ++i) {
      PBT_REQUIRE(m.k[d][i - 1] < m.k[d][i], where << ": knots " << gen::str(m.k[d]));
    }
  }
  for (double c : m.cp) PBT_REQUIRE(std::fabs(c) <= 5 + 1e-9, where << ": coordinate " << c);
  if (m.rational) {
    for (double w : m.w) PBT_REQUIRE(w > 0 && w <= 2 + 1e-9, where << ": weight " << w);
  }
  if (call == 0) {
    std::vector<double> u(D, std::min(hi, lo + (hi - lo) * u01));
    bool cheap = true;
    for (int d = 0; d < D; ++d) cheap = cheap && m.p[d] <= 4;
    if (cheap) lib::require_geometry(sp, m, {u}, 1e-12, 0, where);
  }
}

template<int D>
static void random_splines(bool rational, double lo, double hi, int max_degree, int sd, int calls, double u01) {
  for (int i = 0; i < calls; ++i) {
    if (rational) {
      random_spline<spl::NURBS<D>, spl::RandomNURBSGenerator<D>>(lo, hi, max_degree, sd, i, u01);
    } else {
      random_spline<spl::BSpline<D>, spl::RandomBSplineGenerator<D>>(lo, hi, max_degree, sd, i, u01);
    }
  }
}

static void uniform_numbers(double lo, double hi, int calls) {
  for (int i = 0; i < calls; ++i) {
    double x = util::Random::GetUniformRandom<double>(lo, hi);
    PBT_REQUIRE(x >= lo && x <= hi, "uniform random number " << x << " outside [" << lo << "," << hi << "]");
  }
  int steps = 1 + calls % 7;
  for (int i = 0; i < calls; ++i) {
    double x = util::Random::GetBinomialRandom<double>(lo, lo + steps * 0.5, 0.5);
    double k = (x - lo) / 0.5;
    PBT_REQUIRE(k >= -1e-9 && k <= steps + 1e-9 && std::fabs(k - std::round(k)) < 1e-9,
                "binomial random number " << x << " is not one of the values from " << lo << " in steps of 0.5");
  }
}

static void prop(pbt::Src &s) {
  if (s.chance(30)) return square(s);
  int dim = s.weighted({3, 3, 2, 1, 1}) + 1;
  bool rational = s.chance(50);
  double lo = gen::small_real(s), hi = lo + s.pick<double>({1, 0.5, 3, 0.1, 100}) * (s.chance(50) ? 1 : 0.1 + s.unit());
  int max_degree = s.range(1, dim == 1 ? 8 : dim == 2 ? 5 : dim == 3 ? 3 : 2);
  int sd = s.range(1, 4);
  int calls = dim <= 2 ? s.range(1, 40) : s.range(1, 6);
  double u01 = s.unit();
  s.nontrivial();
  s.note(dim == 5 ? std::string("random numbers") : std::to_string(dim) + "D " + (rational ? "NURBS" : "B-splines"),
         " limits ", lo, " ", hi, " maximal degree ", max_degree, " space dimension ", sd, " calls ", calls);
  s.label(dim == 5 ? "random numbers" : "random splines");
  int fd[2];
  if (pipe(fd) != 0) throw pbt::Discard{};
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    std::string msg;
    try {
      switch (dim) {
        case 1: random_splines<1>(rational, lo, hi, max_degree, sd, calls, u01); break;
        case 2: random_splines<2>(rational, lo, hi, max_degree, sd, calls, u01); break;
        case 3: random_splines<3>(rational, lo, hi, max_degree, sd, calls, u01); break;
        case 4: random_splines<4>(rational, lo, hi, max_degree, sd, calls, u01); break;
        default: uniform_numbers(lo, hi, 5 * calls);
      }
    } catch (pbt::Failure &f) {
      msg = f.msg;
    } catch (std::exception &e) {
      msg = std::string("unexpected exception: ") + e.what();
    }
    if (!msg.empty() && write(fd[1], msg.data(), std::min<size_t>(msg.size(), 60000)) < 0) _exit(3);
    _exit(msg.empty() ? 0 : 1);
  }
  close(fd[1]);
  std::string msg;
  char buf[4096];
  ssize_t n;
  while (pid > 0 && (n = read(fd[0], buf, sizeof buf)) > 0) msg.append(buf, n);
  close(fd[0]);
  if (pid < 0) throw pbt::Discard{};
  int status = 0;
  waitpid(pid, &status, 0);
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return;
  PBT_FAIL((msg.empty() ? "the generator crashed" : msg));
}

PBT_MAIN("C24", prop, "squares with several spans, and call sequences of the random generators")

// Lists of splines of mixed kinds, and helpers for the file format checks.
#ifndef VERIF_IOFMT_H_
#define VERIF_IOFMT_H_

#include <any>
#include <fstream>

#include "lib.h"

namespace iofmt {
using ref::Model;

inline std::any make_any(const Model &m) {
  std::any a;
  lib::dispatch<4>(m.dim, m.rational, [&](auto *t) {
    using S = std::remove_pointer_t<decltype(t)>;
    a = std::make_any<std::shared_ptr<S>>(lib::make<S>(m));
  });
  return a;
}

// The representation held by a type-erased spline (any_cast on the eight possible types).
inline Model snapshot(const std::any &a, const std::string &where) {
  Model m;
  bool found = false;
  for (int dim = 1; dim <= 4; ++dim) {
    for (int rational = 0; rational < 2; ++rational) {
      lib::dispatch<4>(dim, rational != 0, [&](auto *t) {
        using S = std::remove_pointer_t<decltype(t)>;
        if (auto p = std::any_cast<std::shared_ptr<S>>(&a)) {
          PBT_REQUIRE(*p != nullptr, where << ": null spline");
          PBT_REQUIRE(!found, where << ": ambiguous spline");
          found = true;
          m = lib::snapshot(**p, where);
        }
      });
    }
  }
  PBT_REQUIRE(found, where << ": not a spline");
  return m;
}

// 15 digits: relative; 6 decimals: absolute, for rational IRIT points relative to the weight.
struct Precision {
  double rel, abs;
  bool homogeneous;
};

inline bool close(double a, double b, double rel, double abs) {
  return std::isfinite(a) && std::fabs(a - b) <= rel * std::fabs(b) + abs;
}

inline void require_equal(const Model &got, const Model &want, const Precision &q, const std::string &where) {
  PBT_REQUIRE(got.dim == want.dim && got.rational == want.rational,
              where << ": kind differs: " << got.describe() << " instead of " << want.describe());
  PBT_REQUIRE(got.p == want.p, where << ": degrees " << gen::str(got.p) << " instead of " << gen::str(want.p));
  PBT_REQUIRE(got.sd == want.sd, where << ": dimension of the points " << got.sd << " instead of " << want.sd);
  for (int d = 0; d < want.dim; ++d) {
    PBT_REQUIRE(got.k[d].size() == want.k[d].size(), where << ": number of knots in direction " << d);
    for (size_t i = 0; i < want.k[d].size(); ++i) {
      PBT_REQUIRE(close(got.k[d][i], want.k[d][i], q.rel, q.abs), where << ": knot " << i << " of direction " << d
                  << " is " << got.k[d][i] << " instead of " << want.k[d][i]);
    }
  }
  PBT_REQUIRE(got.cp.size() == want.cp.size() && got.w.size() == want.w.size(), where << ": number of control points");
  for (size_t i = 0; i < want.w.size(); ++i) {
    PBT_REQUIRE(close(got.w[i], want.w[i], q.rel, q.abs), where << ": weight " << i << " is " << got.w[i]
                << " instead of " << want.w[i]);
  }
  for (size_t i = 0; i < want.cp.size(); ++i) {
    double abs = q.abs;
    if (q.homogeneous && want.rational) {
      double w = want.w[i / want.sd];
      abs = q.abs * (1 + std::fabs(want.cp[i])) / (w - q.abs);
    }
    PBT_REQUIRE(close(got.cp[i], want.cp[i], q.rel + 1e-14, abs), where << ": coordinate " << i % want.sd
                << " of control point " << i / want.sd << " is " << got.cp[i] << " instead of " << want.cp[i]);
  }
}

inline Precision iges_precision() { return {1e-14, 1e-300, false}; }
inline Precision six_decimals(bool homogeneous) { return {1e-15, 5.001e-7, homogeneous}; }

// Knots and weights survive rounding to six decimals without coinciding or vanishing.
inline bool survives_rounding(const Model &m) {
  for (const auto &k : m.k) {
    for (size_t i = 1; i < k.size(); ++i) {
      if (k[i] != k[i - 1] && k[i] - k[i - 1] < 2e-5) return false;
    }
  }
  return true;
}

// How large the control points may get: weights w, coordinates c.
inline Model any_model(pbt::Src &s, int dim, bool decimals, int max_sd = 4) {
  gen::Limits l = gen::limits(dim);
  l.max_degree = dim == 1 ? 4 : dim == 2 ? 3 : 2;
  l.max_spans = dim <= 2 ? 4 : 2;
  l.max_points = 60;
  l.max_sd = max_sd;
  l.decimals = decimals;
  l.extra_mult = s.chance(10) ? 1 : 0;
  bool rational = s.chance(50);
  if (s.chance(3)) l.min_degree = 0;
  return gen::model(s, dim, rational, l);
}

struct List {
  std::vector<Model> models;
  std::vector<std::any> splines;
};

inline List list(pbt::Src &s, int max_dim, bool six, int max_count, int max_sd = 4) {
  List out;
  int count = s.weighted({3, 4, 3, 1});
  count = count == 3 ? s.range(0, max_count) : count + 1;
  for (int i = 0; i < count; ++i) {
    int dim = s.range(1, max_dim);
    Model m = any_model(s, dim, six && s.chance(50), max_sd);
    if (six && !survives_rounding(m)) m = any_model(s, dim, true, max_sd);
    s.note("spline ", i, ": ", m.describe());
    out.models.push_back(m);
    out.splines.push_back(make_any(m));
  }
  return out;
}

inline std::string read_text(const std::string &file) {
  std::ifstream in(file, std::ios::binary);
  PBT_REQUIRE(in.good(), "file " << file << " does not exist");
  std::ostringstream o;
  o << in.rdbuf();
  return o.str();
}
inline void write_text(const std::string &file, const std::string &text) {
  std::ofstream out(file, std::ios::binary);
  out << text;
}
inline std::vector<std::string> lines(const std::string &text) {
  std::vector<std::string> v;
  std::istringstream in(text);
  std::string l;
  while (std::getline(in, l)) v.push_back(l);
  return v;
}
inline std::vector<std::string> tokens(const std::string &text) {
  std::vector<std::string> v;
  std::istringstream in(text);
  std::string l;
  while (in >> l) v.push_back(l);
  return v;
}
inline double number(const std::string &text, const std::string &where) {
  char *end = nullptr;
  double v = std::strtod(text.c_str(), &end);
  PBT_REQUIRE(!text.empty() && *end == 0, where << ": '" << text << "' is not a number");
  return v;
}
inline int integer(std::string text, const std::string &where) {
  size_t a = text.find_first_not_of(' ');
  PBT_REQUIRE(a != std::string::npos, where << ": empty number");
  text = text.substr(a);
  text.erase(text.find_last_not_of(' ') + 1);
  char *end = nullptr;
  int64_t v = std::strtoll(text.c_str(), &end, 10);
  PBT_REQUIRE(*end == 0, where << ": '" << text << "' is not an integer");
  return static_cast<int>(v);
}

inline void require_list(const std::vector<std::any> &got, const std::vector<Model> &want, const Precision &q,
                         const std::string &where) {
  PBT_REQUIRE(got.size() == want.size(), where << ": " << got.size() << " splines instead of " << want.size());
  for (size_t i = 0; i < want.size(); ++i) {
    std::string w = where + ", spline " + std::to_string(i);
    Model g = snapshot(got[i], w);
    require_equal(g, want[i], q, w);
  }
}

inline Model padded_to_3d(const Model &m) {
  Model r = m;
  r.sd = 3;
  r.cp.clear();
  for (int i = 0; i < m.total(); ++i) {
    for (int c = 0; c < 3; ++c) r.cp.push_back(c < m.sd ? m.cp[i * m.sd + c] : 0.0);
  }
  return r;
}

}  // namespace iofmt
#endif  // VERIF_IOFMT_H_

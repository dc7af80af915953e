// C15: IRIT write then read.
#include "irit_reader.h"
#include "irit_writer.h"

#include "iofmt.h"

using iofmt::List;
using ref::Model;

static std::string strip(std::string t) {
  while (!t.empty() && t.front() == '[') t.erase(t.begin());
  while (!t.empty() && t.back() == ']') t.pop_back();
  return t;
}

// The file denotes these splines by the rules of the format (orders, homogeneous points for P types).
static void check_file(const std::string &text, const std::vector<Model> &models) {
  std::vector<std::string> t = iofmt::tokens(text);
  size_t at = 0, found = 0;
  for (; at < t.size(); ++at) {
    if (t[at] != "BSPLINE") continue;
    PBT_REQUIRE(found < models.size(), "IRIT file contains too many splines");
    const Model &m = models[found++];
    std::string where = "IRIT file, spline " + std::to_string(found - 1);
    const char *names[] = {"[CURVE", "[SURFACE", "[TRIVAR"};
    PBT_REQUIRE(at > 0 && t[at - 1] == names[m.dim - 1], where << ": type " << t[at - 1]);
    PBT_REQUIRE(at + 2 * m.dim + 1 < t.size(), where << ": header too short");
    for (int d = 0; d < m.dim; ++d) {
      PBT_REQUIRE(iofmt::integer(t[at + 1 + d], where) == m.n(d), where << ": number of points in direction " << d);
      PBT_REQUIRE(iofmt::integer(t[at + 1 + m.dim + d], where) == m.p[d] + 1, where << ": order of direction " << d);
    }
    PBT_REQUIRE(t[at + 1 + 2 * m.dim] == (m.rational ? "P" : "E") + std::to_string(m.sd), where << ": point type " << t[at + 1 + 2 * m.dim]);
    size_t i = at + 2 + 2 * m.dim;
    for (int d = 0; d < m.dim; ++d) {
      PBT_REQUIRE(i < t.size() && t[i] == "[KV", where << ": knot vector " << d << " missing");
      ++i;
      for (size_t j = 0; j < m.k[d].size(); ++j, ++i) {
        PBT_REQUIRE(i < t.size() && (t[i].back() == ']') == (j + 1 == m.k[d].size()), where << ": knot list " << d);
        double v = iofmt::number(strip(t[i]), where);
        PBT_REQUIRE(iofmt::close(v, m.k[d][j], 1e-15, 5.001e-7), where << ": knot " << v << " instead of " << m.k[d][j]);
      }
    }
    for (int j = 0; j < m.total(); ++j) {
      int n = m.sd + (m.rational ? 1 : 0);
      for (int c = 0; c < n; ++c, ++i) {
        PBT_REQUIRE(i < t.size() && (t[i].front() == '[') == (c == 0) && (t[i].back() == ']') == (c + 1 == n),
                    where << ": brackets of point " << j);
        double v = iofmt::number(strip(t[i]), where), want;
        if (m.rational) {
          want = c == 0 ? m.w[j] : m.w[j] * m.cp[j * m.sd + c - 1];
        } else {
          want = m.cp[j * m.sd + c];
        }
        PBT_REQUIRE(iofmt::close(v, want, 1e-15, 5.001e-7), where << ": value " << c << " of point " << j << " is " << v
                    << " instead of " << want);
      }
    }
    at = i - 1;
  }
  PBT_REQUIRE(found == models.size(), "IRIT file contains " << found << " splines instead of " << models.size());
}

static void prop(pbt::Src &s) {
  List list = iofmt::list(s, 3, true, pbt::thorough() ? 12 : 6, 5);
  std::string file = pbt::scratch() + "/f.itd";
  io::IRITWriter writer;
  if (s.chance(6)) {
    Model bad = iofmt::any_model(s, 4, false, 3);
    size_t at = s.below(list.splines.size() + 1);
    list.splines.insert(list.splines.begin() + at, iofmt::make_any(bad));
    s.note("with a spline of dimension 4 at position ", at);
    s.label("rejected");
    bool thrown = false;
    try {
      writer.WriteFile(list.splines, file.c_str());
    } catch (std::runtime_error &) {
      thrown = true;
    }
    PBT_REQUIRE(thrown, "a spline of dimension 4 was accepted for IRIT");
    return;
  }
  if (list.models.size() >= 2) s.nontrivial();
  for (const auto &m : list.models) s.label(std::string(m.rational ? "NURBS " : "BSpline ") + std::to_string(m.dim) + "D");
  writer.WriteFile(list.splines, file.c_str());
  check_file(iofmt::read_text(file), list.models);
  io::IRITReader reader;
  iofmt::require_list(reader.ReadFile(file.c_str()), list.models, iofmt::six_decimals(true), "IRIT read back");
  std::remove(file.c_str());
}

PBT_MAIN("C15", prop, "lists of up to 6 (thorough 12) random splines of dimension 1 to 3; the file is parsed "
         "independently and compared, then read back; non-trivial: at least two splines")

// C16: XML write then read.
#include "pugixml.hpp"
#include "xml_reader.h"
#include "xml_writer.h"

#include "iofmt.h"

using iofmt::List;
using ref::Model;

static std::vector<double> numbers(const pugi::xml_node &n, const std::string &where) {
  std::vector<double> v;
  for (const auto &t : iofmt::tokens(n.first_child().value())) v.push_back(iofmt::number(t, where));
  return v;
}
static void check_numbers(const std::vector<double> &got, const std::vector<double> &want, const std::string &where) {
  PBT_REQUIRE(got.size() == want.size(), where << ": " << got.size() << " numbers instead of " << want.size());
  for (size_t i = 0; i < want.size(); ++i) {
    PBT_REQUIRE(iofmt::close(got[i], want[i], 1e-15, 5.001e-7), where << ": number " << i << " is " << got[i]
                << " instead of " << want[i]);
  }
}

static void check_file(pugi::xml_document *doc, const std::string &file, const std::vector<Model> &models) {
  PBT_REQUIRE(doc->load_file(file.c_str()), "the file written is not XML");
  pugi::xml_node root = doc->child("SplineList");
  PBT_REQUIRE(!root.empty(), "no SplineList in the file");
  PBT_REQUIRE(iofmt::integer(root.attribute("NumberOfSplines").value(), "NumberOfSplines") == static_cast<int>(models.size()),
              "NumberOfSplines is " << root.attribute("NumberOfSplines").value() << " for " << models.size());
  size_t i = 0;
  for (pugi::xml_node n = root.first_child(); n; n = n.next_sibling(), ++i) {
    PBT_REQUIRE(i < models.size(), "too many entries");
    const Model &m = models[i];
    std::string where = "XML entry " + std::to_string(i);
    auto attribute = [&](const char *name, int want) {
      PBT_REQUIRE(iofmt::integer(n.attribute(name).value(), where + name) == want, where << ": " << name << " is "
                  << n.attribute(name).value() << " instead of " << want);
    };
    attribute("splDim", m.dim);
    attribute("spaceDim", m.sd);
    attribute("numOfCntrlPntVars", m.sd);
    attribute("numCntrlPnts", m.total());
    check_numbers(numbers(n.child("cntrlPntVars"), where), m.cp, where + " points");
    PBT_REQUIRE(n.child("wght").empty() == !m.rational, where << ": weights present or missing wrongly");
    if (m.rational) check_numbers(numbers(n.child("wght"), where), m.w, where + " weights");
    std::vector<double> deg(m.p.begin(), m.p.end());
    check_numbers(numbers(n.child("deg"), where), deg, where + " degrees");
    pugi::xml_node k = n.child("kntVecs").first_child();
    for (int d = 0; d < m.dim; ++d, k = k.next_sibling()) {
      PBT_REQUIRE(!k.empty(), where << ": knot vector " << d << " missing");
      check_numbers(numbers(k, where), m.k[d], where + " knots");
    }
    PBT_REQUIRE(k.empty(), where << ": too many knot vectors");
  }
  PBT_REQUIRE(i == models.size(), i << " entries for " << models.size() << " splines");
}

// The same file with further variables per control point before and after the coordinates.
static void add_variables(pbt::Src &s, pugi::xml_document *doc, const std::vector<Model> &models) {
  size_t i = 0;
  const char *coordinate_names[] = {"x", "y", "z", "t"};
  for (pugi::xml_node n = doc->child("SplineList").first_child(); n; n = n.next_sibling(), ++i) {
    const Model &m = models[i];
    if (m.sd > 4) continue;
    int before = s.range(0, 2), after = s.range(0, 2);
    s.note("spline ", i, ": ", before, " more variables before and ", after, " after the coordinates");
    std::string names, values;
    for (int j = 0; j < before; ++j) names += "a" + std::to_string(j) + " ";
    for (int j = 0; j < m.sd; ++j) names += std::string(coordinate_names[j]) + " ";
    for (int j = 0; j < after; ++j) names += "b" + std::to_string(j) + " ";
    std::vector<std::string> t = iofmt::tokens(n.child("cntrlPntVars").first_child().value());
    for (int j = 0; j < m.total(); ++j) {
      values += "\n  ";
      for (int c = 0; c < before; ++c) values += std::to_string(900 + c) + ".5 ";
      for (int c = 0; c < m.sd; ++c) values += t[j * m.sd + c] + " ";
      for (int c = 0; c < after; ++c) values += "-" + std::to_string(700 + c) + ".25 ";
    }
    n.attribute("numOfCntrlPntVars") = m.sd + before + after;
    n.child("cntrlPntVarNames").first_child().set_value(names.c_str());
    n.child("cntrlPntVars").first_child().set_value(values.c_str());
  }
}

static void prop(pbt::Src &s) {
  List list = iofmt::list(s, 4, true, pbt::thorough() ? 12 : 6, 5);
  std::string file = pbt::scratch() + "/f.xml";
  io::XMLWriter writer;
  if (list.models.size() >= 2) s.nontrivial();
  for (const auto &m : list.models) s.label(std::string(m.rational ? "NURBS " : "BSpline ") + std::to_string(m.dim) + "D");
  writer.WriteFile(list.splines, file.c_str());
  pugi::xml_document doc;
  check_file(&doc, file, list.models);
  io::XMLReader reader;
  iofmt::require_list(reader.ReadFile(file.c_str()), list.models, iofmt::six_decimals(false), "XML read back");
  if (s.chance(25)) {
    add_variables(s, &doc, list.models);
    PBT_REQUIRE(doc.save_file(file.c_str()), "cannot write");
    iofmt::require_list(reader.ReadFile(file.c_str()), list.models, iofmt::six_decimals(false), "XML read with more variables");
    s.label("more variables");
  }
  std::remove(file.c_str());
}

PBT_MAIN("C16", prop, "lists of up to 6 (thorough 12) random splines of dimension 1 to 4; the file is parsed "
         "independently and compared, then read back, also with further control point variables; non-trivial: at least two splines")

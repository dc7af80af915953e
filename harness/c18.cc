// C18: file conversion.
#include <unistd.h>

#include "iges_reader.h"
#include "iges_writer.h"
#include "io_converter.h"
#include "irit_reader.h"
#include "irit_writer.h"
#include "xml_reader.h"
#include "xml_writer.h"

#include "vtkfile.h"

using ref::Model;

static const char *kEndings[] = {".iges", ".itd", ".xml", ".vtk"};
static const int kMaxDim[] = {2, 3, 4, 3};

static void write(int format, const std::vector<std::any> &splines, const std::string &file) {
  if (format == 0) io::IGESWriter().WriteFile(splines, file.c_str());
  if (format == 1) io::IRITWriter().WriteFile(splines, file.c_str());
  if (format == 2) io::XMLWriter().WriteFile(splines, file.c_str());
}
static std::vector<std::any> read(int format, const std::string &file) {
  if (format == 0) return io::IGESReader().ReadFile(file.c_str());
  if (format == 1) return io::IRITReader().ReadFile(file.c_str());
  return io::XMLReader().ReadFile(file.c_str());
}

static void names(pbt::Src &s) {
  s.label("names");
  s.nontrivial();
  std::vector<std::string> bad = {"abc", "xml", "iges", "itd", "vtk", "a.igs", "a.xml.bak", "axml", "a_iges", "dir.xml/file", "f.", "a.txt", "x",
                                  "a.itd2", "file.iges.old", "ab", "abcd", "abcde", "data.dat"};
  gen::Limits l;
  l.decimals = true;
  l.max_points = 20;
  Model m = gen::model(s, 1, s.chance(50), l);
  std::string in = pbt::scratch() + "/in.xml", b = s.pick(bad);
  write(2, {iofmt::make_any(m)}, in);
  bool as_input = s.chance(50), thrown = false;
  if (as_input && s.chance(25)) b = "really.vtk";
  s.note(as_input ? "input name " : "output name ", b);
  std::string dir = pbt::scratch();
  if (chdir(dir.c_str()) != 0) pbt::fail("no scratch directory");
  std::string name = s.chance(50) ? dir + "/" + b : b;
  std::string input = as_input ? name : in, output = as_input ? dir + "/out.xml" : name;
  if (as_input && name[0] == '/' && b.find('/') == std::string::npos) write(2, {iofmt::make_any(m)}, name);
  try {
    io::IOConverter converter(input.c_str(), output.c_str());
    converter.ConvertFile();
  } catch (std::runtime_error &) {
    thrown = true;
  }
  PBT_REQUIRE(thrown, "the " << (as_input ? "input" : "output") << " name '" << b << "' was accepted");
}

static void prop(pbt::Src &s) {
  if (s.chance(10)) return names(s);
  int in_format = s.range(0, 2), out_format = s.range(0, 3);
  iofmt::List list;
  int count = s.range(1, 5);
  for (int i = 0; i < count; ++i) {
    int dim = s.range(1, kMaxDim[in_format]);
    Model m = iofmt::any_model(s, dim, true, 3);
    while (m.p[0] == 0 || !iofmt::survives_rounding(m)) m = iofmt::any_model(s, dim, true, 3);
    for (int d = 0; d < dim; ++d) {
      for (double u : gen::distinct(m.k[d])) {
        if (gen::multiplicity(m.k[d], u) > m.p[d] && u != m.lo(d) && u != m.hi(d)) s.label("discontinuous");
      }
    }
    s.note("spline ", i, ": ", m.describe());
    list.models.push_back(m);
    list.splines.push_back(iofmt::make_any(m));
  }
  std::string dir = pbt::scratch(), stem_in = s.pick<std::string>({"in", "a.xml.b", "x.iges", "in.itd", "vtk"}),
      stem_out = s.pick<std::string>({"out", "o.vtk", "o.itd", "o.xml.iges", "iges"});
  std::string in = dir + "/" + stem_in + kEndings[in_format], out = dir + "/" + stem_out + kEndings[out_format];
  write(in_format, list.splines, in);
  s.note("convert ", stem_in, kEndings[in_format], " to ", stem_out, kEndings[out_format]);
  s.label(std::string(kEndings[in_format]) + " to " + kEndings[out_format]);
  io::IOConverter converter(in.c_str(), out.c_str());
  int runs = s.range(1, 3);
  for (int r = 0; r < runs; ++r) {
    std::vector<int> positions;
    if (s.chance(60)) {
      int n = s.range(1, 4);
      for (int i = 0; i < n; ++i) positions.push_back(s.chance(10) ? count + s.range(0, 2) : s.range(0, count - 1));
      if (!s.chance(25)) {  // usually without repetitions
        std::vector<int> u;
        for (int p : positions) {
          if (std::find(u.begin(), u.end(), p) == u.end()) u.push_back(p);
        }
        positions = u;
      }
    }
    std::vector<std::vector<int>> scattering;
    if (out_format == 3) {
      for (size_t i = 0; i < (positions.empty() ? count : positions.size()); ++i) {
        int p = positions.empty() ? static_cast<int>(i) : positions[i];
        scattering.push_back(vtkfile::scattering(s, p < count ? list.models[p].dim : 1));
      }
    }
    s.note("positions ", gen::str(positions));
    std::vector<int> want;
    std::vector<Model> want_models;
    std::vector<std::vector<int>> want_scattering;
    for (size_t i = 0; i < (positions.empty() ? count : positions.size()); ++i) {
      int p = positions.empty() ? static_cast<int>(i) : positions[i];
      if (p >= count || list.models[p].dim > kMaxDim[out_format]) continue;
      want.push_back(p);
      Model m = list.models[p];
      if (in_format == 0 || out_format == 0) m = iofmt::padded_to_3d(m);
      want_models.push_back(m);
      if (out_format == 3) want_scattering.push_back(scattering[i]);
    }
    std::string where = "conversion " + std::to_string(r);
    std::vector<int> got = converter.ConvertFile(positions, scattering);
    PBT_REQUIRE(got == want, where << " returned positions " << gen::str(got) << " instead of " << gen::str(want));
    if (out_format == 3) {
      bool smooth = true;
      for (const auto &m : want_models) {
        for (int d = 0; d < m.dim; ++d) {
          for (double u : gen::distinct(m.k[d])) {
            smooth = smooth && (gen::multiplicity(m.k[d], u) <= m.p[d] || u == m.lo(d) || u == m.hi(d));
          }
        }
      }
      if (smooth) vtkfile::check(iofmt::read_text(out), want_models, want_scattering, in_format == 0 ? 0 : 2e-6, where);
    } else {
      iofmt::require_list(read(out_format, out), want_models, {1e-13, 1.1e-6, true}, where);
    }
    if (want.size() >= 2 || positions.size() != want.size()) s.nontrivial();
  }
  std::remove(in.c_str());
  std::remove(out.c_str());
}

PBT_MAIN("C18", prop, "files of up to 5 random splines in every readable format converted to every writable one with random "
         "positions, repeated on one converter, plus wrong names; non-trivial: at least two splines written or some left out")

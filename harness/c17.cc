// C17: VTK export.
#include "vtk_writer.h"

#include "vtkfile.h"

using ref::Model;

static void prop(pbt::Src &s) {
  int count = s.weighted({4, 4, 2}) + (s.chance(3) ? 0 : 1);
  std::vector<Model> models;
  std::vector<std::any> splines;
  std::vector<std::vector<int>> scattering;
  for (int i = 0; i < count; ++i) {
    int dim = s.weighted({3, 4, 2}) + 1;
    gen::Limits l = gen::limits(dim);
    l.max_degree = dim == 1 ? 4 : dim == 2 ? 3 : 2;
    l.max_spans = dim == 3 ? 2 : 4;
    l.max_points = 60;
    l.max_sd = 4;
    models.push_back(gen::model(s, dim, s.chance(50), l));
    scattering.push_back(vtkfile::scattering(s, dim));
    splines.push_back(iofmt::make_any(models.back()));
    s.note("spline ", i, " scattering ", gen::str(scattering.back()), ": ", models.back().describe());
  }
  std::string file = pbt::scratch() + "/f.vtk";
  io::VTKWriter writer;
  if (s.chance(10)) {
    s.label("rejected");
    std::string what;
    int kind = s.range(0, count ? 3 : 1);
    if (kind == 0) {
      Model bad = iofmt::any_model(s, 4, false, 3);
      size_t at = s.below(splines.size() + 1);
      splines.insert(splines.begin() + at, iofmt::make_any(bad));
      scattering.insert(scattering.begin() + at, std::vector<int>(4, 1));
      what = "a 4D spline";
    } else if (kind == 1) {
      scattering.push_back({1});
      what = "too many scattering entries";
    } else if (kind == 2) {
      scattering.pop_back();
      what = "too few scattering entries";
    } else {
      auto &v = scattering[s.below(scattering.size())];
      if (s.chance(50) || v.size() == 1) {
        v.push_back(2);
      } else {
        v.pop_back();
      }
      what = "a scattering entry of the wrong dimension";
    }
    s.note("with ", what);
    bool thrown = false;
    try {
      writer.WriteFile(splines, file, scattering);
    } catch (std::runtime_error &) {
      thrown = true;
    }
    PBT_REQUIRE(thrown, what << " was accepted for VTK");
    return;
  }
  if (count >= 2) s.nontrivial();
  for (const auto &m : models) s.label(std::string(m.rational ? "NURBS " : "BSpline ") + std::to_string(m.dim) + "D");
  writer.WriteFile(splines, file, scattering);
  vtkfile::check(iofmt::read_text(file), models, scattering, 0, "VTK file");
  std::remove(file.c_str());
}

PBT_MAIN("C17", prop, "lists of up to 3 random splines of dimension 1 to 3 with random scattering; points compared with "
         "the reference evaluation, cells with the grid; non-trivial: at least two splines in one file")

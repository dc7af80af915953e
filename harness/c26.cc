// C26: converter programs and their log files.
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

#include "converter_log.h"
#include "iges_reader.h"
#include "iges_writer.h"
#include "irit_reader.h"
#include "irit_writer.h"
#include "xml_reader.h"
#include "xml_writer.h"

#include "vtkfile.h"

using ref::Model;

static const char *kEndings[] = {".iges", ".itd", ".xml", ".vtk"};
static const char *kNames[] = {"iges", "irit", "xml", "vtk"};
static const int kMaxDim[] = {2, 3, 4, 3};

static void write(int format, const std::vector<std::any> &splines, const std::string &file) {
  if (format == 0) io::IGESWriter().WriteFile(splines, file.c_str());
  if (format == 1) io::IRITWriter().WriteFile(splines, file.c_str());
  if (format == 2) io::XMLWriter().WriteFile(splines, file.c_str());
}
static std::vector<std::any> read(int format, const std::string &file) {
  if (format == 0) return io::IGESReader().ReadFile(file.c_str());
  if (format == 1) return io::IRITReader().ReadFile(file.c_str());
  return io::XMLReader().ReadFile(file.c_str());
}

struct Log {
  std::string in, out;
  bool all;
  std::vector<int> positions;                // unless all
  std::vector<std::vector<int>> scattering;  // one per position, or one per spline of the input file
  bool has_scattering;
};

static std::string text(pbt::Src &s, const Log &l) {
  std::vector<std::string> sections;
  sections.push_back("input:\n" + l.in + "\n");
  sections.push_back("output:\n" + l.out + "\n");
  std::string o = "options:\n";
  if (l.all) {
    o += "all\n";
  } else {
    for (int p : l.positions) o += std::to_string(p) + "\n";
  }
  sections.push_back(o);
  if (l.has_scattering) {
    std::string c = "scattering:\n";
    for (const auto &v : l.scattering) {
      for (size_t i = 0; i < v.size(); ++i) c += (i ? " " : "") + std::to_string(v[i]);
      c += "\n";
    }
    sections.push_back(c);
  }
  if (s.chance(50)) {  // another order
    for (size_t i = sections.size(); i > 1; --i) std::swap(sections[i - 1], sections[s.below(i)]);
    s.label("sections reordered");
  }
  std::string t;
  if (s.chance(10)) t += "\n";
  for (size_t i = 0; i < sections.size(); ++i) {
    t += sections[i];
    int blank = i + 1 == sections.size() ? 0 : s.weighted({2, 6, 1});
    t += std::string(blank, '\n');
    if (blank == 0 && i + 1 < sections.size()) s.label("sections without blank line");
  }
  switch (s.weighted({4, 2, 2, 1})) {
    case 0: break;
    case 1: t.pop_back(); break;  // no line break at the end
    case 2: t += "\n\nlog:\nThu Jan  1 00:00:00 1970\nThe splines at positions 7, 8 in file x.xml have been written to y.vtk"; break;
    default: t += "\nThis text has no meaning: 3 4\n5\n"; break;
  }
  return t;
}

static void check_log(const std::string &before, const std::string &after, const std::vector<int> &written, const Log &l) {
  PBT_REQUIRE(after.compare(0, before.size(), before) == 0, "the log file lost its contents:\n" << after);
  std::string entry = after.substr(before.size());
  PBT_REQUIRE(entry.find("log:") != std::string::npos, "no log entry in \"" << entry << "\"");
  size_t in = entry.find(" in file " + l.in), out = entry.find(" to " + l.out);
  PBT_REQUIRE(in != std::string::npos && out != std::string::npos && in < out, "log entry \"" << entry << "\"");
  size_t line = entry.rfind('\n', in);
  std::string sentence = entry.substr(line == std::string::npos ? 0 : line + 1, in - (line == std::string::npos ? 0 : line + 1));
  std::vector<int> named;
  for (size_t i = 0; i < sentence.size();) {
    if (isdigit(static_cast<unsigned char>(sentence[i]))) {
      size_t e = i;
      while (e < sentence.size() && isdigit(static_cast<unsigned char>(sentence[e]))) ++e;
      named.push_back(std::stoi(sentence.substr(i, e - i)));
      i = e;
    } else {
      ++i;
    }
  }
  PBT_REQUIRE(named == written, "the log entry names positions " << gen::str(named) << " instead of " << gen::str(written)
                                                                << ": \"" << entry << "\"");
  PBT_REQUIRE(!written.empty() || sentence.find("No splines") != std::string::npos, "log entry \"" << entry << "\"");
}

static int run_program(const std::string &program, const std::string &log) {
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open("/dev/null", O_RDWR);
    dup2(fd, 0);
    dup2(fd, 1);
    dup2(fd, 2);
    alarm(60);
    setenv("ASAN_OPTIONS", "detect_leaks=0", 1);
    execl(program.c_str(), program.c_str(), log.c_str(), static_cast<char *>(nullptr));
    _exit(126);
  }
  if (pid < 0) throw pbt::Discard{};
  int status = 0;
  waitpid(pid, &status, 0);
  if (WIFEXITED(status) && WEXITSTATUS(status) == 126) throw pbt::Discard{};
  return status;
}

// ConverterLog alone, with made-up positions.
static void getters(pbt::Src &s) {
  s.label("log file only");
  Log l;
  l.in = s.pick<std::string>({"in.xml", "/tmp/some dir/a.iges", "a", "../x:y.itd", "options", "all"});
  l.out = s.pick<std::string>({"out.vtk", "/tmp/b c.xml", "b", "scattering"});
  int count = s.range(1, 8);
  l.all = s.chance(30);
  l.has_scattering = s.chance(70);
  if (!l.all) {
    int n = s.range(1, 6);
    for (int i = 0; i < n; ++i) l.positions.push_back(s.range(0, count + 1));
  }
  std::vector<int> possible, want;
  for (int i = 0; i < count; ++i) {
    if (s.chance(70)) possible.push_back(i);
  }
  int lines = l.all ? count : static_cast<int>(l.positions.size());
  if (l.has_scattering) {
    for (int i = 0; i < lines; ++i) {
      std::vector<int> v;
      int n = s.range(1, 3);
      for (int j = 0; j < n; ++j) v.push_back(s.range(1, 300));
      l.scattering.push_back(v);
    }
  }
  std::vector<std::vector<int>> want_scattering;
  for (int i = 0; i < lines; ++i) {
    int p = l.all ? i : l.positions[i];
    if (std::find(possible.begin(), possible.end(), p) == possible.end()) continue;
    want.push_back(p);
    if (l.has_scattering) want_scattering.push_back(l.scattering[i]);
  }
  std::string file = pbt::scratch() + "/log.txt", t = text(s, l);
  s.note("log file:\n", t, "\npossible positions ", gen::str(possible));
  iofmt::write_text(file, t);
  io::ConverterLog log(file.c_str());
  PBT_REQUIRE(log.GetInput() == l.in, "input \"" << log.GetInput() << "\"");
  PBT_REQUIRE(log.GetOutput() == l.out, "output \"" << log.GetOutput() << "\"");
  std::vector<int> got = log.GetPositions(possible);
  PBT_REQUIRE(got == want, "positions " << gen::str(got) << " instead of " << gen::str(want));
  if (l.has_scattering) {
    std::vector<std::vector<int>> sc = log.GetScattering();
    PBT_REQUIRE(sc == want_scattering, "scattering of " << sc.size() << " splines instead of " << want_scattering.size()
                                                        << " or other values");
  }
  if (want.size() > 1 || want.size() != static_cast<size_t>(lines)) s.nontrivial();
  log.WriteLog();
  check_log(t, iofmt::read_text(file), want, l);
  std::remove(file.c_str());
}

static void programs(pbt::Src &s) {
  int in_format = s.range(0, 2), out_format = s.range(0, 2);
  if (out_format >= in_format) ++out_format;
  s.label(std::string(kNames[in_format]) + " to " + kNames[out_format]);
  int count = s.range(1, 4);
  iofmt::List list;
  for (int i = 0; i < count; ++i) {
    int dim = s.range(1, kMaxDim[in_format]);
    Model m = iofmt::any_model(s, dim, true, 3);
    for (int tries = 0; m.p[0] == 0 || !iofmt::survives_rounding(m); ++tries) {
      if (tries > 20) throw pbt::Discard{};
      m = iofmt::any_model(s, dim, true, 3);
    }
    s.note("spline ", i, ": ", m.describe());
    list.models.push_back(m);
    list.splines.push_back(iofmt::make_any(m));
  }
  std::string dir = pbt::scratch();
  Log l;
  l.in = dir + "/in put" + kEndings[in_format];
  l.out = dir + "/out" + kEndings[out_format];
  l.all = s.chance(30);
  l.has_scattering = out_format == 3;
  if (!l.all) {
    int n = s.range(1, 4);
    for (int i = 0; i < n; ++i) l.positions.push_back(s.chance(12) ? count + s.range(0, 2) : s.range(0, count - 1));
  }
  int lines = l.all ? count : static_cast<int>(l.positions.size());
  std::vector<int> want;
  std::vector<Model> models;
  std::vector<std::vector<int>> scattering;
  for (int i = 0; i < lines; ++i) {
    int p = l.all ? i : l.positions[i];
    std::vector<int> sc;
    if (l.has_scattering) {
      sc = vtkfile::scattering(s, p < count ? list.models[p].dim : 1);
      l.scattering.push_back(sc);
    }
    if (p >= count || list.models[p].dim > kMaxDim[out_format]) continue;
    want.push_back(p);
    Model m = list.models[p];
    if (in_format == 0 || out_format == 0) m = iofmt::padded_to_3d(m);
    models.push_back(m);
    if (l.has_scattering) scattering.push_back(sc);
  }
  std::string file = dir + "/log file.txt", t = text(s, l);
  s.note("log file:\n", t);
  write(in_format, list.splines, l.in);
  iofmt::write_text(file, t);
  const char *programs = getenv("VERIF_PROGRAMS");
  std::string program = std::string(programs ? programs : ".") + "/" + kNames[in_format] + "_to_" + kNames[out_format];
  int runs = s.chance(20) ? 2 : 1;  // the log file of a run can be used again
  std::string input_before = iofmt::read_text(l.in);
  for (int r = 0; r < runs; ++r) {
    std::string before = iofmt::read_text(file);
    std::remove(l.out.c_str());
    int status = run_program(program, file);
    PBT_REQUIRE(status == 0, "the program ended with status " << status);
    std::string where = "run " + std::to_string(r);
    check_log(before, iofmt::read_text(file), want, l);
    PBT_REQUIRE(iofmt::read_text(l.in) == input_before, "the input file changed");
    if (out_format == 3) {
      bool smooth = true;
      for (const auto &m : models) {
        for (int d = 0; d < m.dim; ++d) {
          for (double u : gen::distinct(m.k[d])) {
            smooth = smooth && (gen::multiplicity(m.k[d], u) <= m.p[d] || u == m.lo(d) || u == m.hi(d));
          }
        }
      }
      if (smooth) vtkfile::check(iofmt::read_text(l.out), models, scattering, in_format == 0 ? 0 : 2e-6, where);
    } else {
      iofmt::require_list(read(out_format, l.out), models, {1e-13, 1.1e-6, true}, where);
    }
  }
  if (want.size() > 1 || want.size() != static_cast<size_t>(lines)) s.nontrivial();
  std::remove(l.in.c_str());
  std::remove(l.out.c_str());
  std::remove(file.c_str());
}

static void prop(pbt::Src &s) {
  if (s.chance(60)) {
    getters(s);
  } else {
    programs(s);
  }
}

PBT_MAIN("C26", prop, "several splines written, or some requested positions left out")

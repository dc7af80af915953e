// C14: IGES write then read, layout of the file.
#include "iges_reader.h"
#include "iges_writer.h"

#include "iofmt.h"

using iofmt::List;
using ref::Model;

struct Layout {
  std::vector<std::string> sections[5];  // S G D P T
};

static Layout parse(const std::string &text) {
  Layout l;
  const std::string letters = "SGDPT";
  size_t at = 0;
  for (const std::string &line : iofmt::lines(text)) {
    PBT_REQUIRE(line.size() == 80, "IGES line has " << line.size() << " columns: '" << line << "'");
    size_t sec = letters.find(line[72]);
    PBT_REQUIRE(sec != std::string::npos, "IGES line without section letter in column 73: '" << line << "'");
    PBT_REQUIRE(sec >= at, "IGES sections out of order at '" << line << "'");
    at = sec;
    l.sections[sec].push_back(line);
    int number = iofmt::integer(line.substr(73), "sequence number");
    PBT_REQUIRE(number == static_cast<int>(l.sections[sec].size()), "IGES sequence number " << number << " in '" << line << "'");
  }
  PBT_REQUIRE(l.sections[0].size() >= 1 && l.sections[1].size() >= 1, "IGES start or global section missing");
  PBT_REQUIRE(l.sections[4].size() == 1, "IGES needs exactly one terminate line");
  const std::string &t = l.sections[4][0];
  for (int i = 0; i < 4; ++i) {
    PBT_REQUIRE(t[8 * i] == letters[i], "IGES terminate line '" << t << "'");
    int n = iofmt::integer(t.substr(8 * i + 1, 7), "terminate line");
    PBT_REQUIRE(n == static_cast<int>(l.sections[i].size()), "IGES terminate line counts " << n << " lines of section "
                << letters[i] << ", there are " << l.sections[i].size());
  }
  return l;
}

static void check_values(const std::vector<double> &data, size_t *at, const std::vector<double> &want,
                         const std::string &where) {
  for (double w : want) {
    PBT_REQUIRE(*at < data.size(), where << ": parameter data too short");
    PBT_REQUIRE(iofmt::close(data[*at], w, 1e-14, 1e-300), where << ": parameter " << *at << " is " << data[*at]
                << " instead of " << w);
    ++*at;
  }
}

static void check_file(const Layout &l, const std::vector<Model> &models) {
  const auto &d = l.sections[2], &p = l.sections[3];
  PBT_REQUIRE(d.size() == 2 * models.size(), "IGES directory has " << d.size() << " lines for " << models.size() << " splines");
  int next = 1;
  for (size_t i = 0; i < models.size(); ++i) {
    std::string where = "IGES entity " + std::to_string(i);
    Model m = iofmt::padded_to_3d(models[i]);
    int type = m.dim == 1 ? 126 : 128;
    for (int row = 0; row < 2; ++row) {
      PBT_REQUIRE(iofmt::integer(d[2 * i + row].substr(0, 8), where) == type, where << ": entity type in '" << d[2 * i + row] << "'");
    }
    int start = iofmt::integer(d[2 * i].substr(8, 8), where), count = iofmt::integer(d[2 * i + 1].substr(24, 8), where);
    PBT_REQUIRE(start == next && count >= 1 && start - 1 + count <= static_cast<int>(p.size()),
                where << ": parameter pointer " << start << " with " << count << " lines");
    next = start + count;
    std::string text;
    for (int j = start - 1; j < start - 1 + count; ++j) {
      text += p[j].substr(0, 64);
      PBT_REQUIRE(iofmt::integer(p[j].substr(64, 8), where) == static_cast<int>(2 * i + 1),
                  where << ": back pointer in '" << p[j] << "'");
    }
    text.erase(text.find_last_not_of(' ') + 1);
    PBT_REQUIRE(!text.empty() && text.back() == ';', where << ": parameter data not terminated");
    text.pop_back();
    std::vector<double> data;
    std::istringstream in(text);
    std::string field;
    while (std::getline(in, field, ',')) data.push_back(iofmt::number(field, where));
    size_t at = 0;
    std::vector<double> head;
    head.push_back(type);
    for (int e = 0; e < m.dim; ++e) head.push_back(m.n(e) - 1);
    for (int e = 0; e < m.dim; ++e) head.push_back(m.p[e]);
    check_values(data, &at, head, where);
    size_t rational_at = m.dim == 1 ? 5 : 7, header = m.dim == 1 ? 7 : 10;
    PBT_REQUIRE(data.size() >= header && data[rational_at] == (m.rational ? 0 : 1), where << ": rationality flag");
    at = header;
    for (int e = 0; e < m.dim; ++e) check_values(data, &at, m.k[e], where + " knots");
    check_values(data, &at, m.w, where + " weights");
    check_values(data, &at, m.cp, where + " points");
  }
  PBT_REQUIRE(next == static_cast<int>(p.size()) + 1, "IGES parameter section has lines no entity refers to");
}

static std::string right(int value, int width) {
  std::string t = std::to_string(value);
  return std::string(width - t.size(), ' ') + t;
}

// The same file with an entity of another type in the directory at the given position.
static std::string with_foreign_entity(const Layout &l, size_t position, int type) {
  std::vector<std::string> d = l.sections[2], p = l.sections[3];
  std::string text = std::to_string(type) + ",1.0,2.0,3.0,0;";
  int start = static_cast<int>(p.size()) + 1;
  p.push_back(text + std::string(64 - text.size(), ' ') + " " + right(static_cast<int>(2 * position + 1), 7) + "P" + right(start, 7));
  std::string row1 = right(type, 8) + right(start, 8), row2 = right(type, 8) + right(0, 8) + right(0, 8) + right(1, 8);
  row1 += std::string(72 - row1.size(), ' ') + "D      0";
  row2 += std::string(72 - row2.size(), ' ') + "D      0";
  d.insert(d.begin() + 2 * position, {row1, row2});
  std::string out;
  for (int i = 0; i < 5; ++i) {
    for (const auto &line : i == 2 ? d : i == 3 ? p : l.sections[i]) out += line + "\n";
  }
  return out;
}

static void prop(pbt::Src &s) {
  List list = iofmt::list(s, 2, false, pbt::thorough() ? 12 : 6, 3);
  for (auto &m : list.models) {
    bool changed = false;
    if (s.chance(25)) {  // values of all magnitudes
      for (auto &c : m.cp) {
        if (s.chance(20)) {
          c = (s.chance(50) ? -1 : 1) * s.pick<double>({1e-5, 1e20, 1e-17, 123456789, 1e-9, 3.25e15, 1e100, 2e-100, 5e6, 1e5});
          changed = true;
        }
      }
    }
    if (changed) {
      s.note("with points ", m.describe());
      list.splines[&m - list.models.data()] = iofmt::make_any(m);
    }
  }
  std::string file = pbt::scratch() + "/" + std::string(s.chance(20) ? s.range(1, 150) : 1, 'f') + ".iges";
  io::IGESWriter writer;
  if (s.chance(8)) {
    Model bad = iofmt::any_model(s, s.range(3, 4), false, 3);
    size_t at = s.below(list.splines.size() + 1);
    list.splines.insert(list.splines.begin() + at, iofmt::make_any(bad));
    s.note("with a spline of dimension ", bad.dim, " at position ", at);
    s.label("rejected");
    bool thrown = false;
    try {
      writer.WriteFile(list.splines, file.c_str());
    } catch (std::runtime_error &) {
      thrown = true;
    }
    PBT_REQUIRE(thrown, "a spline of dimension " << bad.dim << " was accepted for IGES");
    return;
  }
  if (list.models.size() >= 2) s.nontrivial();
  for (const auto &m : list.models) {
    s.label(std::string(m.rational ? "NURBS" : "BSpline") + (m.dim == 1 ? " curve" : " surface"));
  }
  writer.WriteFile(list.splines, file.c_str());
  Layout l = parse(iofmt::read_text(file));
  check_file(l, list.models);
  std::vector<Model> want;
  for (const auto &m : list.models) want.push_back(iofmt::padded_to_3d(m));
  io::IGESReader reader;
  iofmt::require_list(reader.ReadFile(file.c_str()), want, iofmt::iges_precision(), "IGES read back");
  if (s.chance(25)) {
    int type = s.pick<int>({116, 110, 102, 100, 142});
    size_t at = s.below(list.models.size() + 1);
    s.note("with an entity of type ", type, " at position ", at);
    iofmt::write_text(file, with_foreign_entity(l, at, type));
    iofmt::require_list(reader.ReadFile(file.c_str()), want, iofmt::iges_precision(), "IGES read with a foreign entity");
    s.label("foreign entity");
  }
  std::remove(file.c_str());
}

PBT_MAIN("C14", prop, "lists of up to 6 (thorough 12) random curves and surfaces; layout and data parsed independently "
         "and compared, then read back; non-trivial: at least two splines")

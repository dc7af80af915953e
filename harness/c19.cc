// C19: reading any file terminates safely with splines or an exception.
#include "iges_reader.h"
#include "iges_writer.h"
#include "irit_reader.h"
#include "irit_writer.h"
#include "xml_reader.h"
#include "xml_writer.h"

#include "iofmt.h"

using ref::Model;

static std::string hostile(pbt::Src &s) {
  static const std::vector<std::string> v = {
      "0", "-1", "1", "2", "3", "4", "7", "12", "100", "1000", "65536", "1000000", "99999999", "2147483647", "-2147483648", "4294967296",
      "99999999999", "1e308", "1e999", "-1e999", "nan", "inf", "", "abc", "+", "-", ".", "1e", "e5", "0x10", "1.5", "1e-320", "1e-17",
      "0.5", "-0.000001", "1 2", "BSPLINE", "[CURVE", "[SURFACE", "[TRIVAR", "[KV", "]", "[", ";", ",", ",,", "E3", "P3", "P1", "E1", "126",
      "128", "110", "<", ">", "/>", "<x/>", "\"", "&#0;", "\n", "\t", "\r", "\xff", "--1", "1.2.3", "1e5e5", "1,5"};
  return s.pick(v);
}

// Splits into maximal runs of "word" characters and single other characters.
static std::vector<std::string> pieces(const std::string &t) {
  std::vector<std::string> out;
  std::string cur;
  for (char c : t) {
    bool word = std::isalnum(static_cast<unsigned char>(c)) || c == '.' || c == '-' || c == '+' || c == '_';
    if (word) {
      cur += c;
    } else {
      if (!cur.empty()) out.push_back(cur);
      cur.clear();
      out.push_back(std::string(1, c));
    }
  }
  if (!cur.empty()) out.push_back(cur);
  return out;
}

static std::string join(const std::vector<std::string> &v) {
  std::string t;
  for (const auto &x : v) t += x;
  return t;
}

static bool is_number(const std::string &t) {
  return !t.empty() && (std::isdigit(static_cast<unsigned char>(t[0])) || (t[0] == '-' && t.size() > 1));
}

// One edit of the sequence of pieces; favours the first numbers (counts and degrees come first in all formats).
static void mutate(pbt::Src &s, std::vector<std::string> *v) {
  if (v->empty()) {
    v->push_back(hostile(s));
    return;
  }
  std::vector<size_t> numbers, integers;
  for (size_t i = 0; i < v->size(); ++i) {
    if (is_number((*v)[i])) {
      numbers.push_back(i);
      if ((*v)[i].find('.') == std::string::npos) integers.push_back(i);
    }
  }
  size_t at = s.below(v->size());
  int where = s.weighted({4, 3, 2});
  if (where == 0 && !integers.empty()) at = integers[s.below(integers.size())];
  if (where == 1 && !numbers.empty()) at = numbers[s.below(numbers.size())];
  switch (s.range(0, 8)) {
    case 0:
    case 1:
      s.note("replace piece ", at, " '", (*v)[at], "'");
      (*v)[at] = hostile(s);
      s.note("  by '", (*v)[at], "'");
      break;
    case 2:
      s.note("delete piece ", at, " '", (*v)[at], "'");
      v->erase(v->begin() + at);
      break;
    case 3: {
      s.note("duplicate piece ", at, " '", (*v)[at], "'");
      std::string x = (*v)[at];
      v->insert(v->begin() + at, {x, s.chance(50) ? " " : ","});
      break;
    }
    case 4: {
      size_t b = s.chance(50) && !numbers.empty() ? numbers[s.below(numbers.size())] : s.below(v->size());
      s.note("swap pieces ", at, " and ", b);
      std::swap((*v)[at], (*v)[b]);
      break;
    }
    case 5: {
      size_t n = std::min<size_t>(v->size() - at, 1 + s.below(30));
      s.note("delete ", n, " pieces at ", at);
      v->erase(v->begin() + at, v->begin() + at + n);
      break;
    }
    case 6: {
      size_t n = std::min<size_t>(v->size() - at, 1 + s.below(30));
      std::vector<std::string> x(v->begin() + at, v->begin() + at + n);
      s.note("repeat ", n, " pieces at ", at);
      v->insert(v->begin() + s.below(v->size()), x.begin(), x.end());
      break;
    }
    case 7:
      s.note("truncate at piece ", at);
      v->resize(at);
      break;
    default: {
      std::string &x = (*v)[at];
      if (is_number(x)) {  // neighbouring values: counts off by one
        double d = std::strtod(x.c_str(), nullptr) + s.pick<int>({-1, 1, 2, -2});
        s.note("change piece ", at, " '", x, "' to ", d);
        x = x.find('.') == std::string::npos ? std::to_string(static_cast<int64_t>(d)) : std::to_string(d);
      } else {
        size_t i = s.below(x.size() + 1);
        x.insert(i, 1, static_cast<char>(s.below(256)));
        s.note("insert a character in piece ", at);
      }
    }
  }
}

static std::string mutate_lines(pbt::Src &s, const std::string &text) {
  std::vector<std::string> l = iofmt::lines(text);
  if (l.empty()) return text;
  size_t a = s.below(l.size()), b = s.below(l.size());
  int kind = s.range(0, 4);
  s.note("line edit ", kind, " at ", a, " and ", b);
  if (kind == 0) l.erase(l.begin() + a);
  if (kind == 1) l.insert(l.begin() + b, l[a]);
  if (kind == 2) std::swap(l[a], l[b]);
  if (kind == 3) l[a].resize(std::min<size_t>(l[a].size(), s.below(82)));
  if (kind == 4) l[a] += std::string(s.below(20), ' ');
  std::string t, end = s.chance(10) ? "\r\n" : "\n";
  for (size_t i = 0; i < l.size(); ++i) t += l[i] + (i + 1 < l.size() || s.chance(90) ? end : "");
  return t;
}

static std::string right(const std::string &t, size_t width) {
  return t.size() >= width ? t.substr(0, width) : std::string(width - t.size(), ' ') + t;
}

// Edits that keep the 80-column layout: directory fields and parameter data.
static std::string mutate_iges(pbt::Src &s, const std::string &text) {
  std::vector<std::string> l = iofmt::lines(text);
  std::vector<size_t> d, p;
  for (size_t i = 0; i < l.size(); ++i) {
    if (l[i].size() != 80) continue;
    if (l[i][72] == 'D') d.push_back(i);
    if (l[i][72] == 'P') p.push_back(i);
  }
  if (!d.empty() && s.chance(35)) {
    size_t i = d[s.below(d.size())];
    int field = s.chance(70) ? s.pick<int>({0, 1, 3}) : s.range(0, 8);
    std::string v = s.chance(50) ? std::to_string(s.range(0, 9)) : hostile(s);
    s.note("directory line ", i, " field ", field, " becomes '", v, "'");
    l[i].replace(8 * field, 8, right(v, 8));
  } else if (!p.empty()) {
    size_t first = s.below(p.size());
    std::string owner = l[p[first]].substr(64, 8), data;
    std::vector<size_t> mine;
    for (size_t i : p) {
      if (l[i].substr(64, 8) == owner) {
        mine.push_back(i);
        data += l[i].substr(0, 64);
      }
    }
    std::vector<std::string> v = pieces(data);
    mutate(s, &v);
    data = join(v);
    data.resize(std::max<size_t>(64 * mine.size(), s.chance(50) ? data.size() : 0), ' ');
    for (size_t j = 0; j < mine.size(); ++j) {
      std::string part = data.size() > 64 * j ? data.substr(64 * j, 64) : "";
      l[mine[j]].replace(0, 64, part + std::string(64 - part.size(), ' '));
    }
  }
  std::string t;
  for (const auto &x : l) t += x + "\n";
  return t;
}

template<int D>
static void use(const spl::Spline<D> &spline, const Model &m) {
  for (int corner = 0; corner < 1 << D; ++corner) {
    std::vector<double> u(D);
    for (int d = 0; d < D; ++d) u[d] = corner >> d & 1 ? m.hi(d) : m.lo(d);
    std::vector<double> x = spline.Evaluate(lib::coords<D>(u), lib::all_dims(m.sd));
    PBT_REQUIRE(static_cast<int>(x.size()) == m.sd, "evaluation at a corner returned " << x.size() << " values");
  }
}

static void prop(pbt::Src &s) {
  int format = s.range(0, 2);
  const char *names[] = {"iges", "itd", "xml"};
  std::string file = pbt::scratch() + "/f." + names[format], text;
  s.label(names[format]);
  if (s.chance(2)) {
    size_t n = s.below(300);
    for (size_t i = 0; i < n; ++i) text += static_cast<char>(s.below(256));
    s.note("random bytes");
  } else {
    int max_dim[] = {2, 3, 4};
    std::vector<std::any> splines;
    int count = s.weighted({5, 4, 1}) + 1;
    for (int i = 0; i < count; ++i) {
      gen::Limits l;
      l.decimals = true;
      int dim = s.range(1, max_dim[format]);
      l.max_degree = dim == 1 ? 3 : 2;
      l.max_spans = 2;
      l.max_points = 40;
      l.max_sd = 3;
      Model m = gen::model(s, dim, s.chance(50), l);
      s.note("from ", m.describe());
      splines.push_back(iofmt::make_any(m));
    }
    if (format == 0) io::IGESWriter().WriteFile(splines, file.c_str());
    if (format == 1) io::IRITWriter().WriteFile(splines, file.c_str());
    if (format == 2) io::XMLWriter().WriteFile(splines, file.c_str());
    text = iofmt::read_text(file);
    int edits = s.weighted({1, 8, 4, 2}), max_edits = edits == 3 ? s.range(3, 8) : edits;
    for (int i = 0; i < max_edits; ++i) {
      int kind = s.weighted({6, 2, 1, 1});
      if (kind == 0) {
        if (format == 0 && s.chance(80)) {
          text = mutate_iges(s, text);
        } else {
          std::vector<std::string> v = pieces(text);
          mutate(s, &v);
          text = join(v);
        }
      } else if (kind == 1) {
        text = mutate_lines(s, text);
      } else if (kind == 2 && !text.empty()) {
        size_t at = s.below(text.size());
        text[at] = static_cast<char>(s.below(256));
        s.note("byte ", at, " becomes ", static_cast<int>(text[at]));
      } else {
        size_t at = s.below(text.size() + 1);
        s.note("truncated to ", at, " bytes");
        text.resize(at);
      }
    }
    if (max_edits >= 1) s.nontrivial();
  }
  iofmt::write_text(file, text);
  s.note("file:\n", text);
  std::vector<std::any> splines;
  bool thrown = false;
  try {
    if (format == 0) splines = io::IGESReader().ReadFile(file.c_str());
    if (format == 1) splines = io::IRITReader().ReadFile(file.c_str());
    if (format == 2) splines = io::XMLReader().ReadFile(file.c_str());
  } catch (std::exception &e) {
    thrown = true;
    s.note("exception: ", e.what());
  }
  s.label(thrown ? "exception" : "splines");
  for (size_t i = 0; i < splines.size(); ++i) {
    std::string where = "spline " + std::to_string(i) + " of the file";
    Model m = iofmt::snapshot(splines[i], where);
    lib::require_clamped(m, where);
    for (int d = 0; d < m.dim; ++d) {
      PBT_REQUIRE(m.lo(d) < m.hi(d), where << ": empty parameter range " << m.describe());
    }
    lib::dispatch<4>(m.dim, m.rational, [&](auto *t) {
      using S = std::remove_pointer_t<decltype(t)>;
      use<lib::Traits<S>::dim>(*std::any_cast<std::shared_ptr<S>>(splines[i]), m);
    });
  }
  std::remove(file.c_str());
}

PBT_MAIN("C19", prop, "files written from random splines and then edited (fields, counts, tokens, lines, bytes, truncation), "
         "and random bytes, read under AddressSanitizer; non-trivial: at least one edit")

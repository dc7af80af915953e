// C20: number and list texts are read as the numbers they denote; string helpers against plain definitions.
#include <charconv>

#include "knot_vector.h"
#include "string_operations.h"

#include "pbt.h"

using SO = util::StringOperations;

struct Number {
  std::string text;
  double value;
};

static double denoted(std::string t) {  // correctly rounded, locale independent, not the library's parser
  size_t i = 0;
  bool neg = false;
  if (t[0] == '+' || t[0] == '-') {
    neg = t[0] == '-';
    i = 1;
  }
  double v = 0;
  auto r = std::from_chars(t.data() + i, t.data() + t.size(), v);
  if (r.ec != std::errc() || r.ptr != t.data() + t.size()) throw pbt::Discard{};
  return neg ? -v : v;
}

static Number number(pbt::Src &s, bool plain_int = false) {
  std::string t;
  int sign = s.weighted({5, 3, 1});
  if (sign == 1) t += "-";
  if (sign == 2) t += "+";
  if (plain_int) {
    t += std::to_string(s.below(s.chance(50) ? 10 : 100000));
    return {t, denoted(t)};
  }
  int kind = s.weighted({2, 4, 4});
  if (kind == 2) {  // as printed by usual formatting of a double
    double v;
    switch (s.weighted({3, 2, 2})) {
      case 0: v = s.unit() * 10; break;
      case 1: v = std::ldexp(1 + s.unit(), s.range(0, 200) - 100); break;
      default: v = static_cast<double>(s.below(1000000)) / s.pick<double>({1, 8, 10, 1000}); break;
    }
    char buf[400];
    const char *f = s.pick<const char *>({"%.*e", "%.*g", "%.*E", "%.*G"});
    if (v < 1e15 && s.chance(30)) f = "%.*f";
    snprintf(buf, sizeof buf, f, s.range(0, 20), v);
    t += buf;
    return {t, denoted(t)};
  }
  int zeros = s.chance(15) ? s.range(1, 3) : 0;
  t += std::string(zeros, '0');
  int digits = s.weighted({1, 6, 2});
  int n = digits == 0 ? 0 : digits == 1 ? s.range(1, 4) : s.range(5, 17);
  for (int i = 0; i < n; ++i) t += static_cast<char>('0' + s.below(10));
  bool some = n + zeros > 0;
  if (kind == 1 || !some) {
    t += '.';
    int m = some ? (s.chance(15) ? 0 : s.range(1, 17)) : s.range(1, 10);
    for (int i = 0; i < m; ++i) t += static_cast<char>('0' + s.below(10));
  }
  if (s.chance(50)) {
    t += s.chance(50) ? 'e' : 'E';
    int es = s.weighted({1, 1, 1});
    if (es == 1) t += '-';
    if (es == 2) t += '+';
    if (s.chance(20)) t += '0';
    t += std::to_string(s.below(s.chance(70) ? 12 : 200));
    s.label("exponent");
  }
  return {t, denoted(t)};
}

static bool close(double a, double b) {
  return a == b || std::fabs(a - b) <= 1e-13 * std::fabs(b);
}

static std::string blanks(pbt::Src &s, bool breaks) {
  std::string t;
  int n = s.chance(60) ? 0 : s.range(1, 3);
  for (int i = 0; i < n; ++i) t += breaks ? s.pick<char>({' ', ' ', '\n', '\t', '\r'}) : ' ';
  return t;
}

static void same(const std::vector<double> &got, const std::vector<Number> &want, const std::string &text) {
  PBT_REQUIRE(got.size() == want.size(), got.size() << " numbers read instead of " << want.size() << " from \"" << text
                                                    << "\"");
  for (size_t i = 0; i < got.size(); ++i) {
    PBT_REQUIRE(close(got[i], want[i].value), "number " << i << " is " << got[i] << ", not " << want[i].text << ", in \""
                                                        << text << "\"");
  }
}

static std::string word(pbt::Src &s, const std::string &letters, int max) {
  std::string t;
  int n = s.range(0, max);
  for (int i = 0; i < n; ++i) t += letters[s.below(letters.size())];
  return t;
}

static void prop(pbt::Src &s) {
  s.nontrivial();
  switch (s.weighted({4, 3, 3, 1, 1, 1})) {
    case 0: {
      s.label("single number");
      Number n = number(s);
      s.note("text \"", n.text, "\"");
      double got = SO::StringToDouble(n.text);
      PBT_REQUIRE(close(got, n.value), "\"" << n.text << "\" is read as " << got);
      break;
    }
    case 1: {
      s.label("delimited list");
      std::vector<Number> want;
      std::string text;
      int n = s.range(0, 8);
      bool space = s.chance(60);
      for (int i = 0; i < n; ++i) {
        if (s.chance(10)) text += s.chance(50) ? "," : ",,";
        want.push_back(number(s));
        if (space) text += blanks(s, true);
        if (s.chance(5)) text += "[";
        text += want.back().text;
        if (s.chance(5)) text += "]";
        if (space) text += blanks(s, true);
        text += s.chance(75) ? ',' : ';';
      }
      s.note("text \"", text, "\"");
      same(SO::DelimitedStringToVector(text), want, text);
      break;
    }
    case 2: {
      s.label("space separated list");
      std::vector<Number> want;
      std::string text = blanks(s, false);
      int n = s.range(0, 8);
      bool ints = s.chance(30);
      for (int i = 0; i < n; ++i) {
        want.push_back(number(s, ints));
        text += want.back().text;
        text += s.chance(80) ? " " : "\n";
        while (s.chance(20)) text += s.chance(70) ? ' ' : '\n';
      }
      if (n && s.chance(40)) text.pop_back();
      s.note("text \"", text, "\"");
      std::vector<std::string> parts = SO::split(text, ' ');
      PBT_REQUIRE(parts.size() == want.size(), parts.size() << " parts of \"" << text << "\"");
      for (size_t i = 0; i < parts.size(); ++i) {
        PBT_REQUIRE(parts[i] == want[i].text, "part " << i << " is \"" << parts[i] << "\" in \"" << text << "\"");
      }
      same(SO::StringVectorToNumberVector<double>(parts), want, text);
      std::vector<double> coords;
      for (const auto &c : SO::StringVectorToNumberVector<ParamCoord>(parts)) coords.push_back(c.get());
      same(coords, want, text);
      if (ints) {
        std::vector<double> whole;
        for (int c : SO::StringVectorToNumberVector<int>(parts)) whole.push_back(c);
        same(whole, want, text);
      }
      break;
    }
    case 3: {
      s.label("split");
      std::string text = word(s, "ab, ;\n", 14);
      char d = s.pick<char>({',', ' ', ';', 'a', '\n'});
      s.note("text \"", text, "\" delimiter '", d, "'");
      std::vector<std::string> want(1);
      for (char c : text) {
        if (c == d || c == '\n') {
          want.emplace_back();
        } else {
          want.back() += c;
        }
      }
      std::vector<std::string> nonempty;
      for (auto &w : want) {
        if (!w.empty()) nonempty.push_back(w);
      }
      std::vector<std::string> got = SO::split(text, d);
      PBT_REQUIRE(got == nonempty, "split of \"" << text << "\" at '" << d << "' has " << got.size() << " parts, expected "
                                                 << nonempty.size());
      break;
    }
    case 4: {
      s.label("trim");
      std::string lead = word(s, " \t\n[", 4), core = word(s, "ab [];", 6), tail = word(s, " \t\n]", 4);
      std::string text = lead + core + tail;
      s.note("text \"", text, "\"");
      size_t b = text.find_first_not_of(" \t\n\r\v\f["), e = text.find_last_not_of(" \t\n\r\v\f]");
      std::string want;
      if (b != std::string::npos && e != std::string::npos && b <= e) want = text.substr(b, e - b + 1);
      // left first: brackets left over on the right only count what remains
      std::string got = SO::trim(text);
      PBT_REQUIRE(got == want, "trim of \"" << text << "\" is \"" << got << "\", expected \"" << want << "\"");
      break;
    }
    default: {
      s.label("prefix and suffix");
      std::string a = word(s, "ab.", 8), b = word(s, "ab.", 4);
      if (s.chance(40) && !a.empty()) b = a.substr(s.below(a.size() + 1));
      if (s.chance(30) && !a.empty()) b = a.substr(0, s.below(a.size() + 1));
      s.note("\"", a, "\" and \"", b, "\"");
      bool starts = b.size() <= a.size() && std::equal(b.begin(), b.end(), a.begin());
      bool ends = b.size() <= a.size() && std::equal(b.rbegin(), b.rend(), a.rbegin());
      PBT_REQUIRE(SO::StartsWith(a, b) == starts, "\"" << a << "\" starts with \"" << b << "\"");
      PBT_REQUIRE(SO::EndsWith(a, b) == ends, "\"" << a << "\" ends with \"" << b << "\"");
    }
  }
}

PBT_MAIN("C20", prop, "number texts, lists of them and strings; all non-trivial")

// A small property-based testing engine: every random decision of a case is drawn from a recorded choice
// sequence, so any failing case can be replayed, and shrunk by editing that sequence.
#ifndef VERIF_PBT_H_
#define VERIF_PBT_H_

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Failure {
  std::string msg;
};
struct Discard {};

class Src {
 public:
  explicit Src(uint64_t seed) : state_(seed), random_(true) {}
  explicit Src(std::vector<uint64_t> choices) : replay_(std::move(choices)), random_(false) {}

  // Uniform in [0, n).
  uint64_t below(uint64_t n) {
    if (n <= 1) n = 1;
    uint64_t v;
    if (random_) {
      v = n == 1 ? 0 : next() % n;
    } else {
      v = pos_ < replay_.size() ? replay_[pos_] : 0;
      ++pos_;
      if (v >= n) v = n - 1;
    }
    choices_.push_back(v);
    return v;
  }
  int range(int lo, int hi) {  // inclusive, shrinks to lo
    return lo + static_cast<int>(below(static_cast<uint64_t>(hi - lo + 1)));
  }
  bool chance(int percent) {  // true with the given probability; shrinks to false
    return static_cast<int>(below(100)) >= 100 - percent;
  }
  template<class T>
  const T &pick(const std::vector<T> &v) {
    return v[below(v.size())];
  }
  // Index i with probability proportional to weights[i]; shrinks to index 0.
  int weighted(const std::vector<int> &weights) {
    int total = 0;
    for (int w : weights) total += w;
    int v = static_cast<int>(below(total));
    for (size_t i = 0; i < weights.size(); ++i) {
      if (v < weights[i]) return static_cast<int>(i);
      v -= weights[i];
    }
    return 0;
  }
  double unit() {  // [0, 1), 53 bits
    return static_cast<double>(below(uint64_t{1} << 53)) / static_cast<double>(uint64_t{1} << 53);
  }

  void label(const std::string &l) { labels_.insert(l); }
  void nontrivial() { nontrivial_ = true; }
  bool verbose() const { return verbose_; }
  void set_verbose(bool v) { verbose_ = v; }
  template<class... A>
  void note(const A &... a) {
    if (!verbose_) return;
    std::ostringstream o;
    o.precision(17);
    (o << ... << a);
    notes_.push_back(o.str());
    sink(o.str());
  }
  const std::vector<uint64_t> &choices() const { return choices_; }
  const std::set<std::string> &labels() const { return labels_; }
  const std::vector<std::string> &notes() const { return notes_; }
  bool is_nontrivial() const { return nontrivial_; }
  uint64_t hash() const {
    uint64_t h = 1469598103934665603ull;
    for (uint64_t c : choices_) {
      h ^= c + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
      h *= 1099511628211ull;
    }
    return h;
  }

 private:
  static void sink(const std::string &note);  // keeps the notes of cases that crash
  uint64_t next() {
    uint64_t z = (state_ += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t state_ = 0;
  std::vector<uint64_t> replay_;
  size_t pos_ = 0;
  bool random_;
  bool verbose_ = false;
  bool nontrivial_ = false;
  std::vector<uint64_t> choices_;
  std::set<std::string> labels_;
  std::vector<std::string> notes_;
};

[[noreturn]] inline void fail(const std::string &m) { throw Failure{m}; }

// Scratch directory of this process (created by the runner, removed afterwards).
std::string scratch();
// True in the thorough tier: generators may use larger sizes.
bool thorough();

int run_main(int argc, char **argv, const char *property, const std::function<void(Src &)> &prop, const char *rule);

}  // namespace pbt

#define PBT_REQUIRE(cond, stream)                                  \
  do {                                                             \
    if (!(cond)) {                                                 \
      std::ostringstream pbt_o;                                    \
      pbt_o.precision(17);                                         \
      pbt_o << stream << "  [violated: " #cond "]";                \
      throw pbt::Failure{pbt_o.str()};                             \
    }                                                              \
  } while (0)

#define PBT_FAIL(stream)                                           \
  do {                                                             \
    std::ostringstream pbt_o;                                      \
    pbt_o.precision(17);                                           \
    pbt_o << stream;                                               \
    throw pbt::Failure{pbt_o.str()};                               \
  } while (0)

#define PBT_MAIN(id, fn, rule) \
  int main(int argc, char **argv) { return pbt::run_main(argc, argv, id, fn, rule); }

#endif  // VERIF_PBT_H_

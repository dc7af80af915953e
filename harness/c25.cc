// C25: MultiIndexHandler against integer arithmetic, over operation histories.
#include "multi_index_handler.h"

#include "pbt.h"

template<int D>
static std::string show(const std::array<int, D> &a) {
  std::string t = "(";
  for (int x : a) t += std::to_string(x) + ",";
  t.back() = ')';
  return t;
}

template<int D>
struct Ref {
  std::array<int, D> len, cur;
  long total() const {
    long t = 1;
    for (int l : len) t *= l;
    return t;
  }
  long one(const std::array<int, D> &a) const {
    long r = 0;
    for (int d = D - 1; d >= 0; --d) r = r * len[d] + a[d];
    return r;
  }
  std::array<int, D> tuple(long i) const {
    std::array<int, D> a;
    for (int d = 0; d < D; ++d) {
      a[d] = static_cast<int>(i % len[d]);
      i /= len[d];
    }
    return a;
  }
  void step(long by) {
    long t = total();
    cur = tuple(((one(cur) + by) % t + t) % t);
  }
};

template<int D>
static void check(util::MultiIndexHandler<D> h, const Ref<D> &r, const std::string &op) {
  PBT_REQUIRE(h.GetIndices() == r.cur, op << ": indices " << show<D>(h.GetIndices()) << " expected " << show<D>(r.cur));
  PBT_REQUIRE(h.Get1DIndex() == r.one(r.cur), op << ": 1D index " << h.Get1DIndex() << " at " << show<D>(r.cur));
  PBT_REQUIRE(h.Get1DLength() == r.total(), op << ": length " << h.Get1DLength());
  std::array<int, D> diff = h.GetDifferenceIndices();
  for (int d = 0; d < D; ++d) {
    PBT_REQUIRE(h[d] == r.cur[d], op << ": entry " << d);
    PBT_REQUIRE(diff[d] == r.len[d] - 1 - r.cur[d], op << ": complement entry " << d << " is " << diff[d]);
    long want = 0;
    for (int e = D - 1; e >= 0; --e) {
      if (e != d) want = want * r.len[e] + r.cur[e];
    }
    PBT_REQUIRE(h.ExtractDimension(d) == want,
                op << ": index without direction " << d << " is " << h.ExtractDimension(d) << ", expected " << want
                   << " at " << show<D>(r.cur) << " of " << show<D>(r.len));
  }
}

template<int D>
static void run(pbt::Src &s) {
  Ref<D> r;
  int most = D == 1 ? 40 : D == 2 ? 9 : D == 3 ? 6 : 4;
  for (int d = 0; d < D; ++d) {
    r.len[d] = s.chance(20) ? 1 : s.range(1, most);
    r.cur[d] = 0;
  }
  s.note("extents ", show<D>(r.len));
  if (r.total() > 1) s.nontrivial();
  util::MultiIndexHandler<D> h(r.len);
  check<D>(h, r, "construction");
  if (s.chance(25)) {  // complete sweep up and down
    s.label("complete sweep");
    for (long i = 0; i < r.total(); ++i) {
      PBT_REQUIRE(h.Get1DIndex() == i, "sweep step " << i << " at " << show<D>(h.GetIndices()));
      PBT_REQUIRE(h.Get1DIndex(r.tuple(i)) == i, "1D index of " << show<D>(r.tuple(i)));
      PBT_REQUIRE(h.Get1DIndex(r.len, r.tuple(i)) == i, "1D index of " << show<D>(r.tuple(i)));
      check<D>(h, r, "sweep");
      ++h;
      r.step(1);
    }
    check<D>(h, r, "after the sweep");
    for (long i = 0; i < r.total(); ++i) {
      --h;
      r.step(-1);
      check<D>(h, r, "backward sweep");
    }
  }
  int steps = s.range(1, 15);
  for (int i = 0; i < steps; ++i) {
    std::string op;
    switch (s.weighted({3, 3, 2, 2, 2, 2, 2, 1})) {
      case 0: {
        op = "++h";
        s.note(op);
        auto &back = ++h;
        r.step(1);
        PBT_REQUIRE(&back == &h, "pre-increment returns another object");
        break;
      }
      case 1: {
        op = "h++";
        s.note(op);
        auto before = r.cur;
        auto old = h++;
        r.step(1);
        PBT_REQUIRE(old.GetIndices() == before, "post-increment returned " << show<D>(old.GetIndices()));
        break;
      }
      case 2: op = "--h"; s.note(op); --h; r.step(-1); break;
      case 3: {
        int n = s.range(0, 30);
        op = "h + " + std::to_string(n);
        s.note(op);
        h + n;
        r.step(n);
        break;
      }
      case 4: {
        int n = s.range(0, 30);
        op = "h - " + std::to_string(n);
        s.note(op);
        h - n;
        r.step(-n);
        break;
      }
      case 5: {
        for (int d = 0; d < D; ++d) r.cur[d] = s.range(0, r.len[d] - 1);
        op = "set " + show<D>(r.cur);
        s.note(op);
        h.SetIndices(r.cur);
        break;
      }
      case 6: {
        long n = static_cast<long>(s.below(r.total()));
        op = "set 1D " + std::to_string(n);
        s.note(op);
        h.Set1DIndex(static_cast<int>(n));
        r.cur = r.tuple(n);
        break;
      }
      default: {
        op = "copy";
        s.note(op);
        util::MultiIndexHandler<D> c(h);
        ++h;
        check<D>(c, r, "copy");
        r.step(1);
      }
    }
    check<D>(h, r, op);
  }
}

static void prop(pbt::Src &s) {
  switch (s.range(1, 4)) {
    case 1: run<1>(s); break;
    case 2: run<2>(s); break;
    case 3: run<3>(s); break;
    default: run<4>(s);
  }
}

PBT_MAIN("C25", prop, "more than one index tuple")

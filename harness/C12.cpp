#include "rat.hpp"
using namespace rat;

template<class A, class B>
static void
six(mc::Ctx& c, A const& a, B const& b, int want, std::string const& what)
{
  MC_CHECK(c, (a < b) == (want < 0), what, " <");
  MC_CHECK(c, (a > b) == (want > 0), what, " >");
  MC_CHECK(c, (a == b) == (want == 0), what, " ==");
  MC_CHECK(c, (a != b) == (want != 0), what, " !=");
  MC_CHECK(c, (a <= b) == (want <= 0), what, " <=");
  MC_CHECK(c, (a >= b) == (want >= 0), what, " >=");
}

template<class T>
static bool
comparable(M const& a, M const& b)
{
  return fits<T>(a.n * b.d) && fits<T>(b.n * a.d);
}

template<class T>
static void
pairs_all(mc::Ctx& c)
{
  long const N = mc::bound(16, 7, 28, 12);
  auto n = static_cast<T>(c.range(-N, N));
  auto d = static_cast<T>(c.pick({ 1, -1 }) * c.range(1, N));
  auto a = bwsl::RationalNum<T>(n, d);
  auto ma = M(n, d);
  for (long p = -N; p <= N; ++p) {
    for (long q = -N; q <= N; ++q) {
      if (q == 0) {
        continue;
      }
      auto b = bwsl::RationalNum<T>(static_cast<T>(p), static_cast<T>(q));
      auto mb = M(p, q);
      six(c, a, b, cmp(ma, mb), std::to_string(n) + "//" + std::to_string(d) + " and " + std::to_string(p) + "//" + std::to_string(q));
    }
    c.op("compare with numerator ", p);
  }
  for (long p = -3 * N; p <= 3 * N; ++p) {
    auto k = static_cast<T>(p);
    six(c, a, k, cmp(ma, M(p, 1)), str(ma) + " and the integer " + std::to_string(p));
    six(c, k, a, cmp(M(p, 1), ma), "the integer " + std::to_string(p) + " and " + str(ma));
  }
  mc::H h;
  c.state(h.add(static_cast<uint64_t>(n)).add(static_cast<uint64_t>(d)));
}
MC_FAMILY(pairs_long, "all pairs of rationals of every sign combination, all integers (long)", 3) { pairs_all<long>(c); }
MC_FAMILY(pairs_short, "the same for short", 3) { pairs_all<short>(c); }
MC_FAMILY(pairs_char, "the same for signed char", 3) { pairs_all<signed char>(c); }
MC_FAMILY(pairs_long_long, "the same for long long", 3) { pairs_all<long long>(c); }
MC_FAMILY(pairs_int, "the same for int", 3) { pairs_all<int>(c); }

template<class T>
static void
edge_all(mc::Ctx& c)
{
  static auto const num = edges<T>(true);
  auto n = c.pick(num);
  auto d = c.pick(num);
  c.assume(representable<T>(n, d));
  auto a = bwsl::RationalNum<T>(n, d);
  auto ma = M(n, d);
  for (auto p : num) {
    for (auto q : num) {
      if (!representable<T>(p, q)) {
        continue;
      }
      auto mb = M(p, q);
      if (comparable<T>(ma, mb)) {
        six(c, a, bwsl::RationalNum<T>(p, q), cmp(ma, mb), str(ma) + " and " + str(mb));
      }
    }
    // integers next to the value, and the edges
    for (I k : { ma.n / ma.d - 1, ma.n / ma.d, ma.n / ma.d + 1, I(p) }) {
      auto mi = M(k, 1);
      if (fits<T>(k) && comparable<T>(ma, mi)) {
        six(c, a, static_cast<T>(k), cmp(ma, mi), str(ma) + " and the integer " + str(mi));
        six(c, static_cast<T>(k), a, cmp(mi, ma), "the integer " + str(mi) + " and " + str(ma));
      }
    }
    c.op("compare with numerator ", p);
  }
  // neighbours in the order: the closest rationals with the same denominator
  for (int k : { -1, 0, 1 }) {
    auto mb = M(ma.n + k, ma.d);
    if (fits<T>(ma.n + k) && comparable<T>(ma, mb)) {
      six(c, a, bwsl::RationalNum<T>(static_cast<T>(ma.n + k), static_cast<T>(ma.d)), cmp(ma, mb), str(ma) + " and " + str(mb));
    }
  }
  mc::H h;
  c.state(h.add(static_cast<uint64_t>(n)).add(static_cast<uint64_t>(d)));
}
MC_FAMILY(edges_long, "numbers around powers of two and the largest number, adjacent values (long)", 2) { edge_all<long>(c); }
MC_FAMILY(edges_short, "the same for short", 2) { edge_all<short>(c); }
MC_FAMILY(edges_char, "the same for signed char", 2) { edge_all<signed char>(c); }
MC_FAMILY(edges_long_long, "the same for long long", 2) { edge_all<long long>(c); }
MC_FAMILY(edges_int, "the same for int", 2) { edge_all<int>(c); }

// numbers that come out of operations, streams and conversions
template<class T>
static void
computed(mc::Ctx& c)
{
  static std::vector<std::pair<int, int>> const alphabet{ { 0, -3 }, { 1, 2 }, { -2, 3 }, { 3, -4 }, { 6, 2 }, { -5, -6 } };
  auto make = [&](bwsl::RationalNum<T>& r, M& m) {
    auto p = c.pick(alphabet);
    r = bwsl::RationalNum<T>(p.first, p.second);
    m = M(p.first, p.second);
    for (int k = 0; k < mc::bound(2, 1, 2, 2); ++k) {
      auto op = c.choose(5);
      if (op == 4) {
        continue;
      }
      auto side = c.choose(3);
      auto q = c.pick(alphabet);
      auto b = side == 2 ? M(q.first, 1) : M(q.first, q.second);
      M next;
      c.assume(side == 0 ? apply<T>(op, m, b, next) : apply<T>(op, b, m, next));
      auto rb = bwsl::RationalNum<T>(q.first, q.second);
      r = side == 0 ? real<T>(op, r, rb) : side == 1 ? real<T>(op, rb, r) : real<T>(op, static_cast<T>(q.first), r);
      m = next;
      c.op("op ", op, " -> ", str(r));
    }
  };
  bwsl::RationalNum<T> a;
  M ma;
  make(a, ma);
  mc::H h;
  c.state(h.add(static_cast<uint64_t>(ma.n)).add(static_cast<uint64_t>(ma.d)));
  // against every number of a grid, by construction different or equal
  for (long d = 1; d <= 12; ++d) {
    for (long n = -30; n <= 30; ++n) {
      auto mb = M(n, d);
      auto b = bwsl::RationalNum<T>(static_cast<T>(-n), static_cast<T>(-d));
      six(c, a, b, cmp(ma, mb), "computed " + str(ma) + " and " + str(mb));
      six(c, b, a, cmp(mb, ma), str(mb) + " and computed " + str(ma));
    }
  }
  for (long k = -12; k <= 12; ++k) {
    six(c, a, static_cast<T>(k), cmp(ma, M(k, 1)), "computed " + str(ma) + " and integer " + std::to_string(k));
    six(c, static_cast<T>(k), a, cmp(M(k, 1), ma), "integer " + std::to_string(k) + " and computed " + str(ma));
  }
}
MC_FAMILY(computed_long, "results of all short histories of operations against a grid of values (long)", 4) { computed<long>(c); }
MC_FAMILY(computed_int, "the same for int", 4) { computed<int>(c); }

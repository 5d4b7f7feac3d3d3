#include "rat.hpp"
#include <cmath>
using namespace rat;

template<class T>
static void
value(mc::Ctx& c, bwsl::RationalNum<T> r, M const& m, std::string const& what)
{
  MC_CHECK(c, same(r, m), what, " is ", str(r), " expected ", str(m));
  auto copy = r;
  MC_CHECK(c, static_cast<T>(copy) == static_cast<T>(m.n / m.d), what, " = ", str(m), " as integer is ", static_cast<T>(copy));
  MC_CHECK(c, copy.IsInt() == (m.d == 1), what, " = ", str(m), " IsInt");
  if (iabs(m.n) <= (I(1) << 53) && m.d <= (I(1) << 53)) {
    auto want = static_cast<double>(static_cast<long double>(m.n)) / static_cast<double>(static_cast<long double>(m.d));
    MC_CHECK(c, static_cast<double>(copy) == want, what, " = ", str(m), " as double is ", static_cast<double>(copy));
  }
  MC_CHECK(c, same(copy, m), what, " changed by the queries");
}

template<class T>
static void
build_all(mc::Ctx& c)
{
  long const N = sizeof(T) == 1 ? 127 : mc::bound(700, 200, 2000, 500);
  auto n = static_cast<T>(c.range(-N, N));
  for (long k = -N; k <= N; ++k) {
    auto d = static_cast<T>(k);
    if (d == 0) {
      continue;
    }
    auto r = bwsl::RationalNum<T>(n, d);
    c.op("RationalNum(", n, ",", d, ")");
    auto m = M(n, d);
    value(c, r, m, "built");
    r.Simplify();
    MC_CHECK(c, same(r, m), "simplified again ", str(r));
    mc::H h;
    if (k % 16 == 0) {
      c.state(h.add(static_cast<uint64_t>(m.n)).add(static_cast<uint64_t>(m.d)));
    }
  }
}
MC_FAMILY(build_long, "all numerators and denominators in a box (long)", 1) { build_all<long>(c); }
MC_FAMILY(build_short, "all numerators and denominators in a box (short)", 1) { build_all<short>(c); }
MC_FAMILY(build_char, "all numerators and denominators there are (signed char)", 1) { build_all<signed char>(c); }
MC_FAMILY(build_long_long, "all numerators and denominators in a box (long long)", 1) { build_all<long long>(c); }
MC_FAMILY(build_int, "all numerators and denominators in a box (int)", 1) { build_all<int>(c); }

MC_FAMILY(defaults, "the default number is zero and long long works", 1)
{
  value(c, bwsl::RationalLong{}, M(0, 1), "default");
  value(c, bwsl::RationalInt{}, M(0, 1), "default");
  auto n = c.range(-20, 20);
  for (long long d = 1; d < 20; ++d) {
    value(c, bwsl::RationalNum<long long>(n, -d), M(n, -d), "long long");
    c.op("long long");
    mc::H h;
    c.state(h.add(static_cast<uint64_t>(n)).add(static_cast<uint64_t>(d)));
  }
}

template<class T>
static void
pairs_all(mc::Ctx& c)
{
  long const N = mc::bound(11, 5, 18, 9);
  auto n = static_cast<T>(c.range(-N, N));
  auto d = static_cast<T>(c.pick({ 1, -1 }) * c.range(1, N));
  auto a = bwsl::RationalNum<T>(n, d);
  auto ma = M(n, d);
  for (long p = -N; p <= N; ++p) {
    for (long q = -N; q <= N; ++q) {
      if (q == 0) {
        continue;
      }
      auto b = bwsl::RationalNum<T>(static_cast<T>(p), static_cast<T>(q));
      auto mb = M(p, q);
      for (int op = 0; op < 4; ++op) {
        M m;
        if (!apply<T>(op, ma, mb, m)) {
          continue;
        }
        auto r = real<T>(op, a, b);
        MC_CHECK(c, same(r, m), str(ma), " ", "+-*/"[op], " ", str(mb), " is ", str(r), " expected ", str(m));
      }
    }
    // with an integer on either side
    auto k = static_cast<T>(p);
    for (int op = 0; op < 4; ++op) {
      M m;
      if (apply<T>(op, ma, M(p, 1), m)) {
        auto r = real<T>(op, a, k);
        value(c, r, m, str(ma) + " " + "+-*/"[op] + " " + std::to_string(p));
      }
      if (apply<T>(op, M(p, 1), ma, m)) {
        auto r = real<T>(op, k, a);
        value(c, r, m, std::to_string(p) + " " + "+-*/"[op] + " " + str(ma));
      }
    }
    MC_CHECK(c, same(a, ma), "operand modified");
    c.op("arithmetic of ", str(ma), " with numerator ", p);
  }
  mc::H h;
  c.state(h.add(static_cast<uint64_t>(n)).add(static_cast<uint64_t>(d)));
}
MC_FAMILY(pairs_long, "all pairs of rationals in a box, all operations, integers on either side (long)", 3) { pairs_all<long>(c); }
MC_FAMILY(pairs_short, "the same for short", 3) { pairs_all<short>(c); }
MC_FAMILY(pairs_char, "the same for signed char", 3) { pairs_all<signed char>(c); }
MC_FAMILY(pairs_long_long, "the same for long long", 3) { pairs_all<long long>(c); }
MC_FAMILY(pairs_int, "the same for int", 3) { pairs_all<int>(c); }

template<class T>
static void
edge_all(mc::Ctx& c)
{
  static auto const num = edges<T>(true);
  static auto const den = edges<T>(true);
  auto n = c.pick(num);
  auto d = c.pick(den);
  c.assume(representable<T>(n, d));
  auto a = bwsl::RationalNum<T>(n, d);
  auto ma = M(n, d);
  value(c, a, ma, "built");
  c.op("RationalNum(", n, ",", d, ")");
  for (auto p : num) {
    for (auto q : den) {
      if (!representable<T>(p, q) || (mc::san && !mc::thorough && q < 0)) {
        continue;
      }
      auto mb = M(p, q);
      M m;
      for (int op = 0; op < 4; ++op) {
        if (apply<T>(op, ma, mb, m)) {
          auto r = real<T>(op, a, bwsl::RationalNum<T>(p, q));
          MC_CHECK(c, same(r, m), str(ma), " ", "+-*/"[op], " ", str(mb), " is ", str(r), " expected ", str(m));
        }
      }
    }
    M m;
    for (int op = 0; op < 4; ++op) {
      if (apply<T>(op, ma, M(p, 1), m)) {
        auto r = real<T>(op, a, p);
        value(c, r, m, str(ma) + " " + "+-*/"[op] + " " + std::to_string(p));
      }
      if (apply<T>(op, M(p, 1), ma, m)) {
        auto r = real<T>(op, p, a);
        value(c, r, m, std::to_string(p) + " " + "+-*/"[op] + " " + str(ma));
      }
    }
  }
  c.op("arithmetic with all edges");
  mc::H h;
  c.state(h.add(static_cast<uint64_t>(n)).add(static_cast<uint64_t>(d)));
}
MC_FAMILY(edges_long, "numerators and denominators around powers of two and the largest number (long)", 2) { edge_all<long>(c); }
MC_FAMILY(edges_short, "the same for short", 2) { edge_all<short>(c); }
MC_FAMILY(edges_char, "the same for signed char", 2) { edge_all<signed char>(c); }
MC_FAMILY(edges_long_long, "the same for long long", 2) { edge_all<long long>(c); }
MC_FAMILY(edges_int, "the same for int", 2) { edge_all<int>(c); }

template<class T>
static void
history(mc::Ctx& c)
{
  static std::vector<std::pair<int, int>> const alphabet{ { 0, 1 }, { 1, 2 }, { -2, 3 }, { 3, -4 }, { 6, 1 }, { -5, 6 } };
  auto p = c.pick(alphabet);
  auto r = bwsl::RationalNum<T>(p.first, p.second);
  auto m = M(p.first, p.second);
  int const depth = mc::bound(sizeof(T) == 4 ? 3 : 4, 3, 5, 4);
  for (int k = 0; k < depth; ++k) {
    auto op = c.choose(4);
    auto side = c.choose(4); // r op b, b op r, r op int, int op r
    auto q = side < 2 ? c.pick(alphabet) : std::pair<int, int>(c.pick({ 2, -3 }), 1);
    auto mb = M(q.first, q.second);
    M next;
    c.assume(side % 2 == 0 ? apply<T>(op, m, mb, next) : apply<T>(op, mb, m, next));
    auto b = bwsl::RationalNum<T>(q.first, q.second);
    auto i = static_cast<T>(q.first);
    r = side == 0 ? real<T>(op, r, b) : side == 1 ? real<T>(op, b, r) : side == 2 ? real<T>(op, r, i) : real<T>(op, i, r);
    c.op("op ", op, " side ", side, " operand ", str(mb), " -> ", str(r));
    m = next;
    MC_CHECK(c, same(r, m), "history yields ", str(r), " expected ", str(m));
    mc::H h;
    c.state(h.add(static_cast<uint64_t>(m.n)).add(static_cast<uint64_t>(m.d)));
  }
  value(c, r, m, "history");
}
MC_FAMILY(history_long, "all histories of operations with rationals and integers on both sides (long)", 4) { history<long>(c); }
MC_FAMILY(history_int, "the same for int", 4) { history<int>(c); }

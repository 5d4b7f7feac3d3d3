#include "lattices.hpp"
#include <bwsl/Pairs.hpp>
using namespace lat;

MC_FAMILY(all_pairs, "every number of sites, all pairs: bijection, order, agreement of all the interfaces", 1)
{
  auto n = static_cast<size_t>(c.range(1, mc::bound(260, 60, 800, 150)));
  auto g = bwsl::HyperCubicGrid(Sizes{ n }, c.pick({ Closed, Open }));
  MC_CHECK(c, bwsl::pairs::GetNumPairs(n) == n * n, n);
  size_t k = 0;
  for (size_t b = 0; b < n; ++b) {
    for (size_t a = 0; a < n; ++a, ++k) {
      auto i = bwsl::pairs::GetPairIndex(a, b, n);
      MC_CHECK(c, i == k, n, " sites, pair ", a, ",", b, " got ", i);
      MC_CHECK(c, bwsl::pairs::GetPairIndex(std::make_pair(a, b), n) == k, n, " sites, pair ", a, ",", b);
      auto p = bwsl::pairs::GetPair(k, n);
      MC_CHECK(c, p.first == a && p.second == b, n, " sites, pair number ", k, " got ", p.first, ",", p.second);
      MC_CHECK(c, g.GetPairIndex(a, b) == k, n, " sites, grid pair ", a, ",", b);
      auto q = g.GetIndividualIndices(k);
      MC_CHECK(c, q.first == a && q.second == b, n, " sites, grid pair number ", k, " got ", q.first, ",", q.second);
    }
    c.op("row ", b, " of the pairs of ", n);
  }
  mc::H h;
  c.state(h.add(n));
}

MC_FAMILY(grids, "all shapes of grids and lattices of up to four dimensions", 4)
{
  auto dim = static_cast<size_t>(c.range(1, 4));
  auto s = shapes::choose_shape(c, dim, dim == 1 ? 30 : 8, mc::bound<size_t>(40, 16, 72, 30));
  auto b = c.pick({ Closed, Open });
  auto n = shapes::nsites(s);
  auto run = [&](auto const& g) {
    size_t k = 0;
    for (size_t y = 0; y < n; ++y) {
      for (size_t x = 0; x < n; ++x, ++k) {
        MC_CHECK(c, g.GetPairIndex(x, y) == k, shapes::str(s), " pair ", x, ",", y);
        auto q = g.GetIndividualIndices(k);
        MC_CHECK(c, q.first == x && q.second == y, shapes::str(s), " pair number ", k);
      }
      c.op("row ", y);
    }
  };
  run(bwsl::HyperCubicGrid(s, b));
  if (dim <= 3) {
    auto l = bwsl::Lattice(dim == 1 ? bwsl::ChainLattice : dim == 2 ? bwsl::TriangularLattice : bwsl::CubicLattice, s, b);
    run(l);
    run(l.GetGrid());
  }
  mc::H h;
  c.state(h.addv(s).add(static_cast<uint64_t>(b == Open)));
}

MC_FAMILY(many_dims, "grids of 5 to 20 dimensions", 3)
{
  auto b = c.pick({ Closed, Open });
  auto s = shapes::choose_many(c, 5, mc::bound<size_t>(20, 10, 32, 16), mc::bound<size_t>(100, 16, 300, 64));
  auto g = bwsl::HyperCubicGrid(s, b);
  auto n = shapes::nsites(s);
  size_t k = 0;
  for (size_t y = 0; y < n; ++y) {
    for (size_t x = 0; x < n; ++x, ++k) {
      MC_CHECK(c, g.GetPairIndex(x, y) == k, shapes::str(s), " pair ", x, ",", y);
      auto q = g.GetIndividualIndices(k);
      MC_CHECK(c, q.first == x && q.second == y, shapes::str(s), " pair number ", k);
    }
    c.op("row ", y);
  }
  mc::H h;
  c.state(h.addv(s).add(static_cast<uint64_t>(b == Open)));
}

MC_FAMILY(huge, "numbers of sites around powers of two (up to the largest with representable pair numbers)", 2)
{
  std::vector<size_t> opts;
  for (int p = 3; p <= 32; ++p) {
    for (long k : { -2, -1, 0, 1, 2 }) {
      auto n = (size_t(1) << p) + k;
      if (n <= (size_t(1) << 32)) {
        opts.push_back(n);
      }
    }
  }
  for (size_t k : { 46340UL, 46341UL, 65535UL, 94906265UL, 94906266UL, 94906267UL, 3037000499UL, 3037000500UL }) {
    opts.push_back(k);
  }
  auto n = c.pick(opts);
  auto g = bwsl::HyperCubicGrid(Sizes{ n }, Closed);
  if (n < size_t(1) << 32) { // (else the number of pairs is not representable, but all their numbers are)
    MC_CHECK(c, bwsl::pairs::GetNumPairs(n) == n * n, n);
  }
  std::vector<size_t> at;
  for (int p = 0; p < 32; ++p) {
    for (long k : { -1, 0, 1 }) {
      auto x = (size_t(1) << p) + k;
      if (x < n) {
        at.push_back(x);
      }
    }
  }
  for (auto x : { n - 1, n - 2, n / 2, n / 2 + 1, n / 3 }) {
    at.push_back(x);
  }
  for (auto a : at) {
    for (auto b : at) {
      auto k = bwsl::pairs::GetPairIndex(a, b, n);
      MC_CHECK(c, k == b * n + a, n, " sites, ", a, ",", b, " got ", k);
      MC_CHECK(c, bwsl::pairs::GetPairIndex({ a, b }, n) == k, n, " sites, ", a, ",", b);
      auto p = bwsl::pairs::GetPair(k, n);
      MC_CHECK(c, p.first == a && p.second == b, n, " sites, pair number ", k, " got ", p.first, ",", p.second);
      MC_CHECK(c, g.GetPairIndex(a, b) == k, n, " sites, ", a, ",", b);
      auto q = g.GetIndividualIndices(k);
      MC_CHECK(c, q.first == a && q.second == b, n, " sites, pair number ", k, " got ", q.first, ",", q.second);
    }
    c.op("pairs with ", a, " of ", n);
  }
  mc::H h;
  c.state(h.add(n));
}

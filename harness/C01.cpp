#include "shapes.hpp"
#include <bwsl/Bravais.hpp>
#include <bwsl/Lattice.hpp>
using namespace shapes;

template<class G>
static void
basics(mc::Ctx& c, G const& g, Sizes const& s, Grid::boundaries_t b)
{
  auto n = nsites(s);
  MC_CHECK(c, g.GetDim() == s.size(), str(s));
  MC_CHECK(c, g.GetSize() == s, str(s), " vs ", str(g.GetSize()));
  MC_CHECK(c, g.GetNumSites() == n, str(s), " ", g.GetNumSites());
  MC_CHECK(c, g.GetBoundaries() == b, str(s));
  MC_CHECK(c, g.HasOpenBoundaries() == (b == Open), str(s));
  MC_CHECK(c, g.HasClosedBoundaries() == (b == Closed), str(s));
  for (size_t i : { size_t(0), n / 2, n - 1, n, n + 1, 2 * n, ~size_t(0) }) {
    MC_CHECK(c, g.IndexIsValid(i) == (i < n), str(s), " index ", i);
  }
}

template<class G>
static void
full(mc::Ctx& c, G const& g, Sizes const& s, Grid::boundaries_t b, long margin)
{
  basics(c, g, s, b);
  auto sites = all_sites(s);
  for (size_t i = 0; i < sites.size(); ++i) {
    auto const& x = sites[i];
    auto y = g.GetCoordinates(i);
    c.op("GetCoordinates(", i, ")=", str(y));
    MC_CHECK(c, y == x, str(s), " site ", i, " got ", str(y), " expected ", str(x));
    auto k = g.GetIndex(x);
    MC_CHECK(c, k == i, str(s), " coordinates ", str(x), " got ", k);
    MC_CHECK(c, g.IsOnGrid(x), str(s), str(x));
    if (i % 16 == 0) {
      mc::H h;
      c.state(h.addv(s).add(static_cast<uint64_t>(b == Open)).add(i).addv(y));
    }
  }
  // the coordinates in a box around the grid
  Coords x(s.size(), -margin);
  for (;;) {
    bool in = true;
    for (size_t d = 0; d < s.size(); ++d) {
      in = in && x[d] >= 0 && x[d] < static_cast<long>(s[d]);
    }
    MC_CHECK(c, g.IsOnGrid(x) == in, str(s), " ", str(x));
    size_t d = s.size();
    while (d > 0) {
      --d;
      if (++x[d] < static_cast<long>(s[d]) + margin) {
        break;
      }
      x[d] = -margin;
      if (d == 0) {
        return;
      }
    }
    if (s.empty()) {
      return;
    }
  }
}

MC_FAMILY(shapes, "all shapes of 0 to 6 dimensions, both boundaries, all sites, all coordinates around the box", 4)
{
  auto b = c.pick({ Open, Closed });
  auto dim = static_cast<size_t>(c.range(0, 6));
  static const size_t maxsize[] = { 1, 1500, 90, 20, 9, 6, 4 };
  auto sites = mc::bound<size_t>(1500, 200, 6000, 1000);
  auto s = choose_shape(c, dim, dim == 1 ? sites : maxsize[dim], sites);
  auto g = Grid(s, b);
  full(c, g, s, b, dim <= 3 ? 2 : 1);
}

MC_FAMILY(lattice, "the same through a Lattice, a copy, an assigned and a sliced grid", 3)
{
  auto b = c.pick({ Open, Closed });
  auto dim = static_cast<size_t>(c.range(1, 3));
  auto s = choose_shape(c, dim, dim == 1 ? 30 : 7, mc::bound<size_t>(60, 24, 120, 60));
  auto const& br = dim == 1   ? bwsl::ChainLattice
                   : dim == 2 ? (s[0] % 2 != 0U ? bwsl::TriangularLattice : bwsl::SquareLattice)
                              : bwsl::CubicLattice;
  auto l = bwsl::Lattice(br, s, b);
  full(c, l, s, b, 1);
  auto how = c.choose(4);
  if (how == 0) {
    full(c, l.GetGrid(), s, b, 1);
  } else if (how == 1) {
    auto m = l;
    full(c, m, s, b, 1);
  } else if (how == 2) {
    auto g = Grid({ 2, 5 }, Open);
    g = l.GetGrid();
    full(c, g, s, b, 1);
  } else {
    auto g = Grid(l);
    auto h = std::move(g);
    full(c, h, s, b, 1);
  }
}

MC_FAMILY(ctor_default, "lattices are closed unless told otherwise", 1)
{
  auto n = static_cast<size_t>(c.range(1, 9));
  auto l = bwsl::Lattice(bwsl::ChainLattice, { n });
  full(c, l, { n }, Closed, 1);
}

MC_FAMILY(many_dims, "grids of 7 to 24 dimensions (with up to 64 sites; of 2 to 12 sides of two or three): all sites, and one step off the grid in every dimension", 3)
{
  auto b = c.pick({ Open, Closed });
  auto s = shapes::choose_many(c, 7, mc::bound<size_t>(24, 12, 40, 24), mc::bound<size_t>(600, 64, 5000, 300));
  auto g = Grid(s, b);
  basics(c, g, s, b);
  auto sites = all_sites(s);
  for (size_t i = 0; i < sites.size(); ++i) {
    auto const& x = sites[i];
    auto y = g.GetCoordinates(i);
    c.op("GetCoordinates(", i, ")=", str(y));
    MC_CHECK(c, y == x, str(s), " site ", i, " got ", str(y), " expected ", str(x));
    MC_CHECK(c, g.GetIndex(x) == i, str(s), " coordinates ", str(x), " got ", g.GetIndex(x));
    MC_CHECK(c, g.IsOnGrid(x), str(s), str(x));
    for (size_t d = 0; d < s.size(); ++d) {
      for (long v : { -1L, static_cast<long>(s[d]), x[d] + 1, x[d] - 1 }) {
        auto z = x;
        z[d] = v;
        MC_CHECK(c, g.IsOnGrid(z) == (v >= 0 && v < static_cast<long>(s[d])), str(s), str(z));
      }
    }
    if (i % 16 == 0) {
      mc::H h;
      c.state(h.addv(s).add(static_cast<uint64_t>(b == Open)).add(i));
    }
  }
}

// grids store no sites, so that their sizes can be huge
MC_FAMILY(huge, "sizes around powers of two, corner sites and extreme coordinates", 3)
{
  auto b = c.pick({ Open, Closed });
  auto dim = static_cast<size_t>(c.range(1, mc::bound(4, 3, 4, 4)));
  Sizes s;
  size_t left = size_t(1) << 63;
  for (size_t d = 0; d < dim; ++d) {
    std::vector<size_t> opts;
    for (size_t base : { size_t(1) << 8, size_t(1) << 15, size_t(1) << 16, size_t(1) << 31,
                         size_t(1) << 32, size_t(1) << 33, size_t(1) << 53, size_t(1) << 62 }) {
      for (long k : { -1, 0, 1 }) {
        if (mc::san && !mc::thorough && base + k != (size_t(1) << 31) && base + k != (size_t(1) << 32) + 1 &&
            base + k != (size_t(1) << 16) + 1 && base + k != (size_t(1) << 62)) {
          continue;
        }
        if (base + k <= left) {
          opts.push_back(base + k);
        }
      }
    }
    for (size_t k : { 1, 2, 3, 7 }) {
      if (k <= left) {
        opts.push_back(k);
      }
    }
    s.push_back(opts[c.choose(static_cast<int>(opts.size()))]);
    left /= s.back();
  }
  auto g = Grid(s, b);
  basics(c, g, s, b);
  // corners (0, 1, middle, end - 1, end in each dimension)
  Coords x(dim);
  std::vector<int> k(dim, 0);
  auto at = [&](size_t d, int k) -> long {
    auto m = static_cast<long>(s[d]);
    long v[] = { 0, 1, m / 2, m - 2, m - 1 };
    return std::min(std::max(v[k], 0L), m - 1);
  };
  for (;;) {
    for (size_t d = 0; d < dim; ++d) {
      x[d] = at(d, k[d]);
    }
    auto i = g.GetIndex(x);
    c.op("GetIndex", str(x), "=", i);
    MC_CHECK(c, i == site_of(x, s), str(s), str(x), " got ", i);
    auto y = g.GetCoordinates(i);
    MC_CHECK(c, y == x, str(s), str(x), " got ", str(y));
    MC_CHECK(c, g.IsOnGrid(x), str(s), str(x));
    size_t d = 0;
    while (d < dim && ++k[d] == 5) {
      k[d++] = 0;
    }
    if (d == dim) {
      break;
    }
  }
  mc::H h;
  c.state(h.addv(s).add(static_cast<uint64_t>(b == Open)));
  // one coordinate off the grid, the others on it
  for (size_t d = 0; d < dim; ++d) {
    auto m = static_cast<long>(s[d]);
    for (long v : { -1L, -2L, -m, -m - 1, m, m + 1, std::numeric_limits<long>::min(),
                    std::numeric_limits<long>::max(), -(1L << 32), (1L << 32) + m, 1L << 62 }) {
      for (size_t q = 0; q < dim; ++q) {
        x[q] = at(q, static_cast<int>(q + d) % 5);
      }
      x[d] = v;
      auto in = v >= 0 && v < m;
      MC_CHECK(c, g.IsOnGrid(x) == in, str(s), str(x));
    }
  }
}

template<class C>
static void
conv(mc::Ctx& c, Sizes const& s)
{
  auto sites = all_sites(s);
  for (size_t i = 0; i < sites.size(); ++i) {
    auto y = bwsl::index_to_array<C, Sizes>(i, s);
    c.op("index_to_array");
    MC_CHECK(c, y.size() == s.size(), str(s));
    for (size_t d = 0; d < s.size(); ++d) {
      MC_CHECK(c, static_cast<long>(y[d]) == sites[i][d], str(s), " site ", i);
    }
    MC_CHECK(c, bwsl::array_to_index(y, s) == i, str(s), " site ", i);
  }
}

MC_FAMILY(conversions, "index_to_array and array_to_index with other coordinate types", 3)
{
  auto t = c.choose(4);
  auto dim = static_cast<size_t>(c.range(1, 4));
  auto s = choose_shape(c, dim, 12, mc::bound<size_t>(120, 40, 400, 120));
  switch (t) {
    case 0:
      return conv<std::vector<int>>(c, s);
    case 1:
      return conv<std::vector<size_t>>(c, s);
    case 2:
      return conv<std::vector<short>>(c, s);
    default:
      return conv<std::vector<unsigned>>(c, s);
  }
}

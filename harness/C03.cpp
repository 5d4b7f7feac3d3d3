#include "shapes.hpp"
#include <bwsl/Bravais.hpp>
#include <bwsl/Lattice.hpp>
using namespace shapes;

/// Representative of d modulo s in (-s/2, s/2]
static long
rep(long d, long s)
{
  auto r = pmod(d, s); // 0..s-1
  return r > s / 2 ? r - s : r;
}

static bwsl::Bravais const&
bravais(size_t dim, int k)
{
  return dim == 1 ? bwsl::ChainLattice
         : dim == 2 ? (k != 0 ? bwsl::TriangularLattice : bwsl::SquareLattice)
                    : bwsl::CubicLattice;
}

template<class G>
static void
jumps(mc::Ctx& c, G const& g, Sizes const& s, Grid::boundaries_t b)
{
  auto sites = all_sites(s);
  Coords w(s.size());
  for (size_t a = 0; a < sites.size(); ++a) {
    for (size_t k = 0; k < sites.size(); ++k) {
      for (size_t d = 0; d < s.size(); ++d) {
        auto e = sites[k][d] - sites[a][d];
        w[d] = b == Open ? e : rep(e, static_cast<long>(s[d]));
      }
      auto j = g.GetJump(a, k);
      MC_CHECK(c, j == w, str(s), (b == Open ? " open " : " closed "), a, "->", k, " got ", str(j), " expected ", str(w));
    }
    c.op("all jumps from ", a);
    if (a % 4 == 0) {
      mc::H h;
      c.state(h.addv(s).add(static_cast<uint64_t>(b == Open)).add(a));
    }
  }
}

MC_FAMILY(all_jumps, "all shapes, all pairs of sites, both boundaries", 4)
{
  auto b = c.pick({ Closed, Open });
  auto dim = static_cast<size_t>(c.range(1, 5));
  static const size_t mx[] = { 0, 200, 40, 12, 6, 4 };
  auto s = choose_shape(c, dim, mx[dim], mc::bound<size_t>(96, 30, 200, 64));
  jumps(c, Grid(s, b), s, b);
}

MC_FAMILY(many_dims, "grids of 6 to 20 dimensions, all pairs of sites; windings around every side of lattices of 4 to 7 dimensions", 3)
{
  auto b = c.pick({ Closed, Open });
  auto s = choose_many(c, 4, mc::bound<size_t>(20, 10, 32, 16), mc::bound<size_t>(72, 16, 200, 40));
  jumps(c, Grid(s, b), s, b);
  if (s.size() > mc::bound<size_t>(7, 5, 8, 6)) {
    return;
  }
  std::vector<double> v(s.size() * s.size(), 0.0);
  std::vector<long> dirs(s.size() * s.size(), 0);
  for (size_t k = 0; k < s.size(); ++k) {
    v[k * s.size() + k] = 1;
    dirs[k * s.size() + k] = 1;
  }
  if (nsites(s) <= mc::bound<size_t>(12, 4, 24, 8)) {
    auto l = bwsl::Lattice(bwsl::Bravais(s.size(), 2 * s.size(), v, v, dirs), s, Closed);
    for (size_t d = 0; d < s.size(); ++d) {
      for (long t : { 0L, 1L, -1L, 2L, -3L, 1000L, -100000L, 1L << 33, -(1L << 40) }) {
        Coords want(s.size());
        Coords tot(s.size());
        for (size_t q = 0; q < s.size(); ++q) {
          want[q] = q == d ? t : static_cast<long>(q) - 2;
          tot[q] = want[q] * static_cast<long>(s[q]);
        }
        auto w = l.GetWinding(tot);
        MC_CHECK(c, w == want, str(s), " winding of ", str(tot), " got ", str(w));
      }
    }
  }
}

MC_FAMILY(long_jumps, "long chains and ribbons, also through a lattice", 3)
{
  auto b = c.pick({ Closed, Open });
  auto shape = c.choose(4);
  auto n = static_cast<size_t>(c.range(97, mc::bound(280, 110, 600, 140)));
  c.assume(shape == 0 || n < mc::bound<size_t>(150, 100, 300, 110));
  auto s = shape == 0 ? Sizes{ n } : shape == 1 ? Sizes{ n, 2 } : shape == 2 ? Sizes{ 3, n } : Sizes{ n };
  if (shape == 3) {
    jumps(c, bwsl::Lattice(bwsl::ChainLattice, s, b), s, b);
  } else {
    jumps(c, Grid(s, b), s, b);
  }
}

MC_FAMILY(huge_jumps, "huge grids, sites at the corners and around half a turn", 3)
{
  std::vector<size_t> opts{ 1, 2, 3, 5 };
  for (size_t base : { size_t(1) << 16, size_t(1) << 31, size_t(1) << 32, size_t(1) << 33, size_t(1) << 53, size_t(1) << 61 }) { // sums of a few sizes have to fit a coordinate
    opts.push_back(base - 1);
    opts.push_back(base);
    opts.push_back(base + 1);
  }
  auto n = c.pick(opts);
  auto m = c.pick(opts);
  c.assume(n <= (size_t(1) << 62) / m + 1);
  auto b = c.pick({ Closed, Open });
  auto s = Sizes{ n, m };
  auto g = Grid(s, b);
  auto at = [&](size_t d) {
    auto t = static_cast<long>(s[d]);
    std::vector<long> v;
    for (long x : { 0L, 1L, t / 2 - 1, t / 2, t / 2 + 1, t - 2, t - 1 }) {
      if (x >= 0 && x < t && std::find(v.begin(), v.end(), x) == v.end()) {
        v.push_back(x);
      }
    }
    return v;
  };
  auto v0 = at(0);
  auto v1 = at(1);
  for (auto x0 : v0) {
    for (auto x1 : v1) {
      for (auto y0 : v0) {
        for (auto y1 : v1) {
          auto j = g.GetJump(site_of({ x0, x1 }, s), site_of({ y0, y1 }, s));
          Coords w{ y0 - x0, y1 - x1 };
          if (b == Closed) {
            w = { rep(w[0], static_cast<long>(n)), rep(w[1], static_cast<long>(m)) };
          }
          c.op("jump ", x0, ",", x1, " -> ", y0, ",", y1, " = ", str(j));
          MC_CHECK(c, j == w, str(s), " ", x0, ",", x1, " -> ", y0, ",", y1, " got ", str(j));
        }
      }
    }
  }
  mc::H h;
  c.state(h.addv(s).add(static_cast<uint64_t>(b == Open)));
}

// Closed walks: every sequence of sites, returning to the start.
MC_FAMILY(walks, "all closed walks over all sites of small closed lattices: jumps add up to whole turns", 5)
{
  auto dim = static_cast<size_t>(c.range(1, 3));
  auto s = choose_shape(c, dim, dim == 1 ? 9 : 5, mc::bound<size_t>(9, 8, 12, 9));
  auto l = bwsl::Lattice(bravais(dim, 1), s, Closed);
  auto n = static_cast<int>(l.GetNumSites());
  auto len = mc::bound(n <= 5 ? 6 : n <= 9 ? 4 : 4, n <= 5 ? 4 : 3, n <= 5 ? 7 : 5, n <= 5 ? 5 : 4);
  auto start = static_cast<size_t>(c.choose(n));
  auto at = start;
  Coords sum(dim, 0);
  Coords model(dim, 0); // unwrapped position relative to the start
  auto sites = all_sites(s);
  for (int k = 0; k <= len; ++k) {
    auto to = k == len ? start : static_cast<size_t>(c.choose(n));
    auto j = l.GetJump(at, to);
    c.op("jump ", at, "->", to, "=", str(j));
    for (size_t d = 0; d < dim; ++d) {
      sum[d] += j[d];
      model[d] += rep(sites[to][d] - sites[at][d], static_cast<long>(s[d]));
    }
    at = to;
  }
  auto w = l.GetWinding(sum);
  for (size_t d = 0; d < dim; ++d) {
    auto m = static_cast<long>(s[d]);
    MC_CHECK(c, sum[d] % m == 0, str(s), " the jumps add up to ", str(sum));
    MC_CHECK(c, sum[d] == model[d], str(s), " the jumps add up to ", str(sum), " not ", str(model));
    MC_CHECK(c, w[d] == model[d] / m, str(s), " winding ", str(w), " of ", str(sum));
  }
  mc::H h;
  c.state(h.addv(s).add(start).addv(sum));
}

MC_FAMILY(windings, "every number of turns within a range, in every dimension, with its sign", 4)
{
  auto b = Closed;
  auto dim = static_cast<size_t>(c.range(1, 3));
  auto s = choose_shape(c, dim, dim == 1 ? 40 : dim == 2 ? 9 : 4, 40);
  auto l = bwsl::Lattice(bravais(dim, 0), s, b);
  long r = dim == 1 ? 300 : dim == 2 ? 20 : 5;
  Coords t(dim, -r);
  for (;;) {
    for (long scale : { 1L, 1000003L, 1L << 40 }) {
      Coords tot(dim);
      Coords w(dim);
      for (size_t d = 0; d < dim; ++d) {
        w[d] = t[d] * scale;
        tot[d] = w[d] * static_cast<long>(s[d]);
      }
      auto arg = tot;
      auto g = l.GetWinding(arg);
      MC_CHECK(c, g == w, str(s), " winding of ", str(tot), " got ", str(g));
      MC_CHECK(c, arg == tot, "the argument is modified");
    }
    c.op("winding ", str(t));
    size_t d = dim;
    bool end = true;
    while (d > 0) {
      if (++t[--d] <= r) {
        end = false;
        break;
      }
      t[d] = -r;
    }
    if (end) {
      break;
    }
  }
  mc::H h;
  c.state(h.addv(s));
}

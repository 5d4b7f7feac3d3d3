#include "shapes.hpp"
#include <bwsl/Bravais.hpp>
#include <bwsl/Lattice.hpp>
using namespace shapes;

template<class G>
static void
pairs_of(mc::Ctx& c, G const& g, Sizes const& s, Grid::boundaries_t b)
{
  auto sites = all_sites(s);
  auto dim = s.size();
  Coords x(dim);
  for (size_t a = 0; a < sites.size(); ++a) {
    for (size_t k = 0; k < sites.size(); ++k) {
      if (b == Closed) {
        for (size_t d = 0; d < dim; ++d) {
          x[d] = pmod(sites[k][d] - sites[a][d], static_cast<long>(s[d]));
        }
        auto want = site_of(x, s);
        auto got = g.GetMappedSite(a, k);
        MC_CHECK(c, got == want, str(s), " map ", a, ",", k, " got ", got, " expected ", want);
        auto back = g.GetUnMappedSite(want, a);
        MC_CHECK(c, back == k, str(s), " unmap ", want, " from ", a, " got ", back);
        if (a == 0) {
          MC_CHECK(c, got == k, "the origin is neutral: ", k);
        }
      } else {
        bool on_map = true;
        bool on_unmap = true;
        Coords y(dim);
        for (size_t d = 0; d < dim; ++d) {
          x[d] = sites[k][d] - sites[a][d];
          on_map = on_map && x[d] >= 0;
          y[d] = sites[k][d] + sites[a][d];
          on_unmap = on_unmap && y[d] < static_cast<long>(s[d]);
        }
        if (on_map) {
          auto got = g.GetMappedSite(a, k);
          MC_CHECK(c, got == site_of(x, s), str(s), " open map ", a, ",", k, " got ", got);
        }
        if (on_unmap) {
          auto got = g.GetUnMappedSite(k, a);
          MC_CHECK(c, got == site_of(y, s), str(s), " open unmap ", k, ",", a, " got ", got);
        }
      }
    }
    c.op("all pairs with site ", a);
    if (a % 4 == 0) {
      mc::H h;
      c.state(h.addv(s).add(static_cast<uint64_t>(b == Open)).add(a));
    }
  }
}

template<class G>
static void
enforce_all(mc::Ctx& c, G const& g, Sizes const& s, Grid::boundaries_t b, long turns)
{
  // all the coordinates up to some turns away
  auto dim = s.size();
  Coords x(dim);
  for (size_t d = 0; d < dim; ++d) {
    x[d] = -turns * static_cast<long>(s[d]) - 1;
  }
  for (;;) {
    auto y = x;
    g.EnforceBoundaries(y);
    auto w = x;
    if (b == Closed) {
      for (size_t d = 0; d < dim; ++d) {
        w[d] = pmod(x[d], static_cast<long>(s[d]));
      }
    }
    MC_CHECK(c, y == w, str(s), (b == Open ? " open " : " closed "), str(x), " became ", str(y));
    size_t d = dim;
    bool end = true;
    while (d > 0) {
      --d;
      if (++x[d] <= (turns + 1) * static_cast<long>(s[d])) {
        end = false;
        break;
      }
      x[d] = -turns * static_cast<long>(s[d]) - 1;
    }
    if (end) {
      break;
    }
  }
  c.op("EnforceBoundaries on the whole box");
}

MC_FAMILY(pairs, "all shapes, all pairs of sites: map, unmap, composition through the group of displacements", 4)
{
  auto b = c.pick({ Closed, Open });
  auto dim = static_cast<size_t>(c.range(1, 5));
  static const size_t mx[] = { 0, 200, 40, 12, 6, 4 };
  auto s = choose_shape(c, dim, mx[dim], mc::bound<size_t>(96, 30, 200, 64));
  auto g = Grid(s, b);
  pairs_of(c, g, s, b);
}

MC_FAMILY(many_dims, "grids of 6 to 20 dimensions: all pairs of sites; coordinates some turns away in every dimension", 3)
{
  auto b = c.pick({ Closed, Open });
  auto s = choose_many(c, 6, mc::bound<size_t>(20, 10, 32, 16), mc::bound<size_t>(72, 16, 200, 40));
  auto g = Grid(s, b);
  pairs_of(c, g, s, b);
  for (size_t d = 0; d < s.size(); ++d) {
    for (long t = -2; t <= 2; ++t) {
      for (long k = 0; k < static_cast<long>(s[d]); ++k) {
        Coords want(s.size(), 0);
        for (size_t q = 0; q < s.size(); ++q) {
          want[q] = static_cast<long>(s[q]) - 1;
        }
        want[d] = k;
        auto x = want;
        x[d] += t * static_cast<long>(s[d]);
        auto y = x;
        g.EnforceBoundaries(y);
        MC_CHECK(c, y == (b == Closed ? want : x), str(s), str(x), " became ", str(y));
      }
    }
  }
}

MC_FAMILY(whole_turns, "sizes beyond 2^53: coordinates around whole and half turns", 3)
{
  auto b = c.pick({ Closed, Open });
  auto base = c.pick({ (1L << 53) + 1, (1L << 53) - 1, (1L << 55) + 3, (1L << 58) - 1, (1L << 60) - 1, (1L << 60) + 1, (1L << 61) - 1, (1L << 61) + 1, 3000000000000000001L, 4000000000000000037L });
  auto at = c.choose(3);
  auto s = at == 0 ? Sizes{ static_cast<size_t>(base) } : at == 1 ? Sizes{ 2, static_cast<size_t>(base) } : Sizes{ static_cast<size_t>(base), 2 };
  auto g = Grid(s, b);
  auto d = static_cast<size_t>(at == 1);
  for (long t = -4; t <= 4; ++t) {
    for (long k = -3; k <= 3; ++k) {
      for (long off : { 0L, base / 2, base / 3 }) {
        auto w = static_cast<__int128>(t) * base + off + k;
        if (w > std::numeric_limits<long>::max() - base || w < std::numeric_limits<long>::min() + base) {
          continue;
        }
        Coords x(s.size(), 1);
        x[d] = static_cast<long>(w);
        auto y = x;
        g.EnforceBoundaries(y);
        auto want = x;
        if (b == Closed) {
          want[d] = pmod(x[d], base);
        }
        c.op("EnforceBoundaries ", str(x), " -> ", str(y));
        MC_CHECK(c, y == want, str(s), str(x), " became ", str(y));
      }
    }
  }
  mc::H h;
  c.state(h.addv(s).add(static_cast<uint64_t>(b == Open)));
}

MC_FAMILY(pairs_long, "long chains and ribbons", 3)
{
  auto b = c.pick({ Closed, Open });
  auto shape = c.choose(3);
  auto n = static_cast<size_t>(c.range(97, mc::bound(300, 110, 600, 150)));
  c.assume(shape == 0 || n < mc::bound<size_t>(160, 100, 300, 110));
  auto s = shape == 0 ? Sizes{ n } : shape == 1 ? Sizes{ n, 2 } : Sizes{ 3, n };
  auto g = Grid(s, b);
  pairs_of(c, g, s, b);
}

// composition, stated on the real operations only
MC_FAMILY(compose, "Unmap(Map(b,c), Map-displaced) composes for all triples of small closed grids", 4)
{
  auto dim = static_cast<size_t>(c.range(1, 4));
  auto s = choose_shape(c, dim, dim == 1 ? 24 : 6, mc::bound<size_t>(24, 12, 36, 16));
  auto g = Grid(s, Closed);
  auto n = g.GetNumSites();
  for (size_t a = 0; a < n; ++a) {
    for (size_t b = 0; b < n; ++b) {
      auto ab = g.GetMappedSite(a, b);
      for (size_t k = 0; k < n; ++k) {
        auto bc = g.GetMappedSite(b, k);
        auto ac = g.GetMappedSite(a, k);
        MC_CHECK(c, g.GetUnMappedSite(bc, ab) == ac, str(s), " ", a, " ", b, " ", k);
        MC_CHECK(c, g.GetUnMappedSite(ab, bc) == ac, str(s), " ", a, " ", b, " ", k);
      }
      c.op("compose ", a, " ", b);
    }
  }
  mc::H h;
  c.state(h.addv(s));
}

MC_FAMILY(enforce, "EnforceBoundaries of grid and lattice on all coordinates up to several turns away", 4)
{
  auto b = c.pick({ Closed, Open });
  auto dim = static_cast<size_t>(c.range(1, 4));
  static const size_t mx[] = { 0, 60, 10, 5, 3 };
  auto s = choose_shape(c, dim, mx[dim], mc::bound<size_t>(60, 16, 90, 30));
  long turns = dim == 1 ? 6 : dim == 2 ? 3 : 1;
  auto kind = c.choose(dim <= 3 ? 3 : 1);
  if (kind == 0) {
    auto g = Grid(s, b);
    enforce_all(c, g, s, b, turns);
  } else if (kind == 1) {
    auto l = bwsl::Lattice(dim == 1 ? bwsl::ChainLattice : dim == 2 ? bwsl::TriangularLattice : bwsl::CubicLattice, s, b);
    enforce_all(c, l, s, b, turns);
  } else {
    auto l = bwsl::Lattice(dim == 1 ? bwsl::ChainLattice : dim == 2 ? bwsl::SquareLattice : bwsl::CubicLattice, s, b);
    Grid const& g = l;
    enforce_all(c, g, s, b, turns);
  }
  mc::H h;
  c.state(h.addv(s).add(static_cast<uint64_t>(b == Open)).add(static_cast<uint64_t>(kind)));
}

MC_FAMILY(enforce_far, "coordinates very far away, congruent in one dimension and not in the other", 4)
{
  auto b = c.pick({ Closed, Open });
  auto n = c.pick({ size_t(1), size_t(2), size_t(3), size_t(7), size_t(1000), size_t(65537) });
  auto m = c.pick({ size_t(1), size_t(5), size_t(4), size_t(70000) });
  auto dimfirst = c.flip();
  auto s = dimfirst ? Sizes{ n, m } : Sizes{ m, n };
  auto g = Grid(s, b);
  auto far = c.pick({ 1000L, -1000L, 99999L, -99999L, 65536L, -65536L, 131071L, -131073L });
  auto k = c.pick({ 0L, 1L, -1L, 2L });
  for (long y : { -1L, 0L, 1L, static_cast<long>(m), static_cast<long>(m) - 1 }) {
    auto x = far * (mc::thorough ? 10L : 1L) + k;
    auto v = dimfirst ? Coords{ x, y } : Coords{ y, x };
    auto w = v;
    g.EnforceBoundaries(w);
    c.op("EnforceBoundaries ", str(v), " -> ", str(w));
    for (size_t d = 0; d < 2; ++d) {
      auto want = b == Closed ? pmod(v[d], static_cast<long>(s[d])) : v[d];
      MC_CHECK(c, w[d] == want, str(s), str(v), " became ", str(w));
    }
    mc::H h;
    c.state(h.addv(s).addv(v).add(static_cast<uint64_t>(b == Open)));
  }
}

MC_FAMILY(huge, "huge grids: map, unmap and boundaries at the corners", 3)
{
  std::vector<size_t> opts;
  for (size_t base : { size_t(1) << 16, size_t(1) << 31, size_t(1) << 32, size_t(1) << 53, size_t(1) << 62 }) {
    opts.push_back(base - 1);
    opts.push_back(base);
    if (base < size_t(1) << 62) { // twice the size has to fit a coordinate
      opts.push_back(base + 1);
    }
  }
  auto n = c.pick(opts);
  std::vector<size_t> second{ 0, 1, 2, 3 };
  for (auto k : { size_t(1) << 16, (size_t(1) << 16) + 1, (size_t(1) << 31) - 1, size_t(1) << 31 }) {
    second.push_back(k);
  }
  auto m = c.pick(second); // 0: one dimension
  c.assume(m == 0 || n <= (size_t(1) << 62) / m);
  auto s = m == 0 ? Sizes{ n } : c.flip() ? Sizes{ m, n } : Sizes{ n, m };
  auto b = c.pick({ Closed, Open });
  auto g = Grid(s, b);
  auto dim = s.size();
  std::vector<Coords> pts;
  auto at = [&](size_t d) {
    auto t = static_cast<long>(s[d]);
    std::vector<long> v;
    for (long x : { 0L, 1L, t / 2 - 1, t / 2, t / 2 + 1, t - 2, t - 1 }) {
      if (x >= 0 && x < t && std::find(v.begin(), v.end(), x) == v.end()) {
        v.push_back(x);
      }
    }
    return v;
  };
  for (auto x : at(0)) {
    if (dim == 1) {
      pts.push_back({ x });
    } else {
      for (auto y : at(1)) {
        pts.push_back({ x, y });
      }
    }
  }
  for (auto const& p : pts) {
    for (auto const& q : pts) {
      Coords x(dim);
      Coords e(dim);
      Coords u(dim);
      bool on = true;
      bool uon = true;
      for (size_t d = 0; d < dim; ++d) {
        e[d] = q[d] - p[d];
        on = on && e[d] >= 0;
        x[d] = pmod(e[d], static_cast<long>(s[d]));
        u[d] = q[d] + p[d];
        uon = uon && u[d] < static_cast<long>(s[d]);
      }
      auto f = e;
      g.EnforceBoundaries(f);
      MC_CHECK(c, f == (b == Closed ? x : e), str(s), str(e), " became ", str(f));
      if (b == Closed || on) {
        auto i = g.GetMappedSite(site_of(p, s), site_of(q, s));
        MC_CHECK(c, i == site_of(x, s), str(s), " map ", str(p), str(q), " got ", i);
        auto k = g.GetUnMappedSite(i, site_of(p, s));
        MC_CHECK(c, k == site_of(q, s), str(s), " unmap ", str(p), str(q), " got ", k);
      } else if (uon) {
        auto k = g.GetUnMappedSite(site_of(q, s), site_of(p, s));
        MC_CHECK(c, k == site_of(u, s), str(s), " unmap ", str(p), str(q), " got ", k);
      }
      c.op("map ", str(p), str(q));
    }
  }
  mc::H h;
  c.state(h.addv(s).add(static_cast<uint64_t>(b == Open)));
}

#include "lattices.hpp"
using namespace lat;
using shapes::str;

static std::vector<std::vector<size_t>>
model_neighbors(Def const& d, Sizes const& s, bool closed)
{
  auto sites = shapes::all_sites(s);
  std::vector<std::vector<size_t>> nn(sites.size());
  for (size_t i = 0; i < sites.size(); ++i) {
    for (auto const& dir : d.dirs) {
      for (int sign : { 1, -1 }) {
        auto x = sites[i];
        bool in = true;
        for (size_t k = 0; k < s.size(); ++k) {
          x[k] += sign * dir[k];
          in = in && x[k] >= 0 && x[k] < static_cast<long>(s[k]);
          if (closed) {
            x[k] = shapes::pmod(x[k], static_cast<long>(s[k]));
          }
        }
        if (closed || in) {
          nn[i].push_back(shapes::site_of(x, s));
        }
      }
    }
    std::sort(nn[i].begin(), nn[i].end());
  }
  return nn;
}

static void
check(mc::Ctx& c, Def const& d, bwsl::Lattice const& l, Sizes const& s, bool closed)
{
  auto want = model_neighbors(d, s, closed);
  auto n = want.size();
  for (size_t i = 0; i < n; ++i) {
    auto got = l.GetNeighbors(i);
    std::sort(got.begin(), got.end());
    c.op("GetNeighbors(", i, "): ", got.size());
    MC_CHECK(c, got == want[i], d.name, str(s), (closed ? " closed" : " open"), " site ", i);
    MC_CHECK(c, l.GetCoordination(i) == want[i].size(), d.name, str(s), " site ", i);
    if (i % 8 == 0) {
      mc::H h;
      c.state(h.add(d.name).addv(s).add(i).addv(got));
    }
  }
  MC_CHECK(c, l.GetCoordination() == want[0].size(), d.name, str(s));
  for (size_t a = 0; a < n; ++a) {
    for (size_t b = 0; b < n; ++b) {
      bool is = std::binary_search(want[a].begin(), want[a].end(), b);
      MC_CHECK(c, l.AreNeighbors(a, b) == is, d.name, str(s), (closed ? " closed " : " open "), a, " ", b);
      // symmetric with multiplicity
      auto const& la = l.GetNeighbors(a);
      auto const& lb = l.GetNeighbors(b);
      auto na = std::count(la.begin(), la.end(), b);
      auto nb = std::count(lb.begin(), lb.end(), a);
      MC_CHECK(c, na == nb, d.name, str(s), " ", a, " ", b, ": ", na, " ", nb);
    }
  }
}

MC_FAMILY(tables, "all lattices, all shapes, both boundaries: neighbour lists, symmetry, coordination", 4)
{
  auto const& d = c.pick(all());
  auto b = c.pick({ Closed, Open });
  auto s = shapes::choose_shape(c, d.dim, maxsize(d.dim, 40), mc::bound<size_t>(d.dim >= 4 ? 54 : 72, 36, 144, 72));
  auto l = bwsl::Lattice(d.make(), s, b);
  check(c, d, l, s, b == Closed);
}

MC_FAMILY(large, "larger built-in lattices", 3)
{
  auto k = c.choose(4);
  auto const& d = all()[k];
  auto b = c.pick({ Closed, Open });
  auto top = mc::bound<long>(24, 12, 40, 20);
  Sizes s;
  if (d.dim == 1) {
    s = { static_cast<size_t>(c.range(41, mc::bound(300, 100, 600, 200))) };
  } else if (d.dim == 2) {
    s = { static_cast<size_t>(c.range(9, top)), static_cast<size_t>(c.range(9, top)) };
  } else {
    auto t = mc::bound<long>(7, 5, 9, 6);
    s = { static_cast<size_t>(c.range(4, t)), static_cast<size_t>(c.range(4, t)), static_cast<size_t>(c.range(4, t)) };
  }
  auto l = bwsl::Lattice(*d.builtin, s, b);
  check(c, d, l, s, b == Closed);
}

MC_FAMILY(many_dims, "lattices of 7 to 10 dimensions, few sites", 3)
{
  auto s = shapes::choose_many(c, 7, mc::bound<size_t>(10, 7, 12, 8), mc::bound<size_t>(24, 8, 64, 12));
  auto b = c.pick({ Closed, Open });
  c.assume(b == Open || s.size() <= mc::bound<size_t>(7, 6, 8, 7));
  auto d = hyper(s.size(), c.flip());
  auto l = bwsl::Lattice(d.make(), s, b);
  check(c, d, l, s, b == Closed);
}

MC_FAMILY(units, "all lattices in units of length of 2^-480 to 2^480: which sites are neighbours does not depend on them", 3)
{
  auto d = scaled(c.pick(all()), c.pick(mc::bound<std::vector<int>>(units(), { -24, 100 }, units(), units())));
  auto b = c.pick({ Closed, Open });
  auto s = shapes::choose_shape(c, d.dim, 4, mc::bound<size_t>(d.dim >= 4 ? 3 : 12, 4, d.dim >= 4 ? 6 : 16, 6));
  auto l = bwsl::Lattice(d.make(), s, b);
  check(c, d, l, s, b == Closed);
}

// every set of one or two directions with components in -2..2
MC_FAMILY(directions, "every set of up to two neighbour directions with components -2..2 in two dimensions", 4)
{
  Def d{ "custom", 2, { { 1, 0 }, { 0, 1 } }, {}, nullptr, true };
  auto n = c.range(1, 2);
  for (long k = 0; k < n; ++k) {
    auto x = c.range(-2, 2);
    auto y = c.range(-2, 2);
    d.dirs.push_back({ x, y });
  }
  auto b = c.pick({ Closed, Open });
  auto s = shapes::choose_shape(c, 2, 4, 16);
  auto l = bwsl::Lattice(d.make(), s, b);
  check(c, d, l, s, b == Closed);
}

MC_FAMILY(big, "chains and cells of up to more than 2^17 sites, around powers of two: every neighbour list and coordination, every link in both directions, some sites that are not linked", 4)
{
  auto const& d = c.pick(all());
  auto b = c.pick({ Closed, Open });
  c.assume(d.dim <= mc::bound<size_t>(3, 2, 6, 3) && (mc::thorough || d.builtin != nullptr || d.dim == 1 || d.name == "square J1-J2"));
  auto n = c.pick(mc::bound<std::vector<size_t>>(wide(), { 257, 65537 }, wide(), wide()));
  auto s = choose_big(c, d.dim, n);
  auto l = bwsl::Lattice(d.make(), s, b);
  auto want = model_neighbors(d, s, b == Closed);
  n = want.size();
  for (size_t i = 0; i < n; ++i) {
    auto got = l.GetNeighbors(i);
    std::sort(got.begin(), got.end());
    MC_CHECK(c, got == want[i], d.name, str(s), " site ", i);
    MC_CHECK(c, l.GetCoordination(i) == want[i].size(), d.name, str(s), " site ", i, " coordination ", l.GetCoordination(i));
    for (auto k : want[i]) {
      MC_CHECK(c, l.AreNeighbors(i, k) && l.AreNeighbors(k, i), d.name, str(s), i, " ", k);
    }
    for (auto k : { i, (i + 5) % n, n - 1 - i, i / 2, i & 0xff, i & 0xffff, i & 0x7fff }) {
      MC_CHECK(c, l.AreNeighbors(i, k) == std::binary_search(want[i].begin(), want[i].end(), k), d.name, str(s), i, " ", k);
    }
    if (i % 1024 == 0) {
      c.op("neighbours of ", i, " of ", n);
    }
  }
  MC_CHECK(c, l.GetCoordination() == want[0].size(), d.name, str(s));
  mc::H h;
  c.state(h.add(d.name).addv(s).add(static_cast<uint64_t>(b == Open)));
}

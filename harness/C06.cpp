#include "lattices.hpp"
using namespace lat;
using shapes::str;

static void
check(mc::Ctx& c, Def const& d, bwsl::Lattice const& l, Sizes const& s)
{
  auto sites = shapes::all_sites(s);
  auto n = sites.size();
  auto dual = d.dual();
  auto const pi = 3.14159265358979323846264338327950288L;
  double scale = 1 / d.unit;
  for (auto const& v : dual) {
    for (auto x : v) {
      scale += std::fabs(static_cast<double>(x));
    }
  }
  double const tol = 2e-13 * scale; // of a component: some hundred rounding errors
  std::vector<std::vector<long double>> frac(n, std::vector<long double>(d.dim)); // k.v_j/2pi
  for (size_t i = 0; i < n; ++i) {
    auto k = l.GetMomentum(i);
    c.op("GetMomentum(", i, ")=", str(k));
    MC_CHECK(c, k.size() == d.dim, d.name);
    std::vector<long double> want(d.dim, 0.0L);
    for (size_t j = 0; j < d.dim; ++j) {
      auto m = sites[i][j] - static_cast<long>(s[j] / 2);
      for (size_t q = 0; q < d.dim; ++q) {
        want[q] += 2 * pi * dual[j][q] * m / static_cast<long double>(s[j]);
      }
    }
    MC_CHECK(c, close(k, want, tol), d.name, str(s), " momentum ", i, " is ", str(k), " expected ", static_cast<double>(want[0]));
    for (size_t j = 0; j < d.dim; ++j) {
      long double t = 0;
      for (size_t q = 0; q < d.dim; ++q) {
        t += k[q] * d.v[j][q];
      }
      frac[i][j] = t / (2 * pi);
      // phase over the period of the lattice
      auto turns = frac[i][j] * static_cast<long double>(s[j]);
      MC_CHECK(c, std::fabs(turns - std::round(turns)) <= tol * d.unit * static_cast<double>(s[j]), d.name, str(s), " momentum ", i, " is not allowed");
    }
    if (i % 8 == 0) {
      mc::H h;
      c.state(h.add(d.name).addv(s).add(i));
    }
  }
  for (size_t a = 0; a < n; ++a) {
    for (size_t b = 0; b < a; ++b) {
      bool same = true;
      for (size_t j = 0; j < d.dim; ++j) {
        auto x = frac[a][j] - frac[b][j];
        same = same && std::fabs(x - std::round(x)) < 1e-7L;
      }
      MC_CHECK(c, !same, d.name, str(s), " momenta ", a, " and ", b, " are equivalent");
    }
  }
}

MC_FAMILY(momenta, "all lattices, all shapes with closed boundaries, all momenta", 4)
{
  auto const& d = c.pick(all());
  auto s = shapes::choose_shape(c, d.dim, d.dim == 2 ? 20 : d.dim == 3 ? 9 : maxsize(d.dim, 60), mc::bound<size_t>(d.dim >= 4 ? 54 : 80, 36, 144, 64));
  auto l = bwsl::Lattice(d.make(), s, Closed);
  check(c, d, l, s);
}

MC_FAMILY(many_dims, "lattices of 7 and 8 dimensions, few sites", 3)
{
  auto s = shapes::choose_many(c, 7, mc::bound<size_t>(8, 7, 9, 7), mc::bound<size_t>(16, 8, 32, 12));
  auto d = hyper(s.size(), c.flip());
  auto l = bwsl::Lattice(d.make(), s, Closed);
  check(c, d, l, s);
}

MC_FAMILY(units, "all lattices in units of length of 2^-480 to 2^480, small shapes, all momenta", 4)
{
  auto d = scaled(c.pick(all()), c.pick(units()));
  auto s = shapes::choose_shape(c, d.dim, 6, mc::bound<size_t>(d.dim >= 4 ? 4 : 12, d.dim >= 4 ? 2 : 4, 24, 8));
  auto l = bwsl::Lattice(d.make(), s, Closed);
  check(c, d, l, s);
}

MC_FAMILY(large, "long chains and larger two dimensional cells", 3)
{
  auto const& d = c.pick(all());
  c.assume(d.dim <= 2);
  auto n = static_cast<size_t>(c.range(15, mc::bound<long>(31, 17, 40, 20)));
  auto s = d.dim == 1 ? Sizes{ n * 13 } : Sizes{ n, 31 - n / 2 };
  auto l = bwsl::Lattice(d.make(), s, Closed);
  check(c, d, l, s);
}

MC_FAMILY(shears, "all sheared cells", 4)
{
  Def d;
  d.dim = 2;
  auto sh = static_cast<double>(c.range(-8, 8)) / 4;
  auto h = c.pick({ 1.0, 0.25, 3.0, -1.0 });
  auto swap = c.flip();
  d.name = "shear " + std::to_string(sh) + " height " + std::to_string(h);
  d.v = swap ? std::vector<Real>{ { sh, h }, { 1, 0 } } : std::vector<Real>{ { 1, 0 }, { sh, h } };
  d.dirs = { { 1, 0 }, { 0, 1 } };
  auto s = shapes::choose_shape(c, 2, mc::bound<size_t>(7, 4, 9, 6), 49);
  auto l = bwsl::Lattice(d.make(), s, Closed);
  check(c, d, l, s);
}

MC_FAMILY(big, "chains and cells of up to more than 2^17 sites, around powers of two: every momentum (the differences between them follow from the values)", 4)
{
  auto const& d = c.pick(all());
  c.assume(d.dim <= mc::bound<size_t>(3, 2, 6, 3) && (mc::thorough || d.builtin != nullptr || d.dim == 1 || d.name == "sheared"));
  auto n = c.pick(mc::bound<std::vector<size_t>>(wide(), { 257, 65537 }, wide(), wide()));
  auto s = choose_big(c, d.dim, n);
  auto l = bwsl::Lattice(d.make(), s, Closed);
  n = shapes::nsites(s);
  auto dual = d.dual();
  auto const pi = 3.14159265358979323846264338327950288L;
  double scale = 1 / d.unit;
  for (auto const& v : dual) {
    for (auto x : v) {
      scale += std::fabs(static_cast<double>(x));
    }
  }
  for (size_t i = 0; i < n; ++i) {
    auto k = l.GetMomentum(i);
    auto x = shapes::coords_of(i, s);
    std::vector<long double> want(d.dim, 0.0L);
    for (size_t j = 0; j < d.dim; ++j) {
      auto m = x[j] - static_cast<long>(s[j] / 2);
      for (size_t q = 0; q < d.dim; ++q) {
        want[q] += 2 * pi * dual[j][q] * m / static_cast<long double>(s[j]);
      }
    }
    // (neighbouring momenta are 2 pi / 2^18 apart)
    MC_CHECK(c, close(k, want, 2e-13 * scale), d.name, str(s), " momentum ", i, " is ", str(k));
    if (i % 1024 == 0) {
      c.op("momentum ", i, " of ", n);
    }
  }
  mc::H h;
  c.state(h.add(d.name).addv(s));
}

#include "lattices.hpp"
using namespace lat;
using shapes::str;

/// Length of the shortest image of the displacement x, by brute force over
/// every image that can be as close as x itself.
static long double
shortest(Def const& d, std::vector<std::vector<long double>> const& dual, Sizes const& s, Coords const& x)
{
  auto n = d.dim;
  auto norm = [&](Coords const& y) {
    auto p = d.pos(y);
    long double r = 0;
    for (auto v : p) {
      r += v * v;
    }
    return std::sqrt(r);
  };
  auto best = norm(x);
  auto r0 = best;
  Coords lo(n);
  Coords hi(n);
  for (size_t k = 0; k < n; ++k) {
    long double g = 0;
    for (auto w : dual[k]) {
      g += w * w;
    }
    auto c = r0 * std::sqrt(g) + 1e-6L;
    auto L = static_cast<long double>(s[k]);
    lo[k] = static_cast<long>(std::floor((-c - x[k]) / L)) - 1;
    hi[k] = static_cast<long>(std::ceil((c - x[k]) / L)) + 1;
  }
  Coords m = lo;
  for (;;) {
    auto y = x;
    for (size_t k = 0; k < n; ++k) {
      y[k] += m[k] * static_cast<long>(s[k]);
    }
    best = std::min(best, norm(y));
    size_t k = n;
    bool end = true;
    while (k > 0) {
      --k;
      if (++m[k] <= hi[k]) {
        end = false;
        break;
      }
      m[k] = lo[k];
    }
    if (end) {
      return best;
    }
  }
}

static void
check(mc::Ctx& c, Def const& d, bwsl::Lattice const& l, Sizes const& s, bool closed, bool triangle, size_t step = 1)
{
  auto sites = shapes::all_sites(s);
  auto n = sites.size();
  auto dual = d.dual();
  double const tol = 1e-12 * (1 + static_cast<double>(*std::max_element(s.begin(), s.end())));
  double const tl = tol * d.unit; // of a length
  std::vector<long double> min(n, 0);
  if (closed) {
    for (size_t i = 0; i < n; ++i) {
      min[i] = shortest(d, dual, s, sites[i]);
    }
  }
  for (size_t i = 0; i < n; ++i) {
    auto p = l.GetPosition(i);
    MC_CHECK(c, close(p, d.pos(sites[i]), tl), d.name, str(s), " position of ", i, " is ", str(p));
  }
  std::vector<double> dist(n * n);
  for (size_t a = 0; a < n; a += a + step < n || a + 1 == n ? step : n - 1 - a) {
    for (size_t b = 0; b < n; ++b) {
      auto v = l.GetVector(a, b);
      auto r = l.GetDistance(a, b);
      dist[a * n + b] = r;
      MC_CHECK(c, v.size() == d.dim, d.name);
      MC_CHECK(c, step == 1 || std::fabs(r - l.GetDistance(b, a)) <= tl, d.name, str(s), " not symmetric ", a, " ", b);
      MC_CHECK(c, std::fabs(r - len(v)) <= tl, d.name, str(s), " ", a, " ", b, " distance ", r, " vector ", str(v));
      if (!closed) {
        Coords x(d.dim);
        for (size_t k = 0; k < d.dim; ++k) {
          x[k] = sites[b][k] - sites[a][k];
        }
        MC_CHECK(c, close(v, d.pos(x), tl), d.name, " open ", str(s), " ", a, " ", b, " vector ", str(v));
      } else {
        Coords x(d.dim);
        for (size_t k = 0; k < d.dim; ++k) {
          x[k] = shapes::pmod(sites[b][k] - sites[a][k], static_cast<long>(s[k]));
        }
        auto want = min[shapes::site_of(x, s)];
        MC_CHECK(c, std::fabs(len(v) - want) <= tl, d.name, " closed ", str(s), " ", a, " ", b, " vector ", str(v), " shortest ", static_cast<double>(want));
        // it connects a to an image of b
        for (size_t k = 0; k < d.dim; ++k) {
          long double t = 0;
          for (size_t q = 0; q < d.dim; ++q) {
            t += dual[k][q] * v[q];
          }
          auto turns = (t - x[k]) / static_cast<long double>(s[k]);
          MC_CHECK(c, std::fabs(turns - std::round(turns)) <= tol, d.name, " closed ", str(s), " ", a, " ", b, " vector ", str(v), " does not lead to an image");
        }
      }
    }
    c.op("vectors and distances from ", a);
    if (a % 8 == 0) {
      mc::H h;
      c.state(h.add(d.name).addv(s).add(static_cast<uint64_t>(closed)).add(a));
    }
  }
  for (size_t a = 0; a < n; ++a) {
    for (size_t b = 0; b < n; ++b) {
      if (step > 1) {
        continue;
      }
      MC_CHECK(c, std::fabs(dist[a * n + b] - dist[b * n + a]) <= tl, d.name, str(s), " not symmetric ", a, " ", b);
      MC_CHECK(c, a == b ? dist[a * n + b] == 0 : dist[a * n + b] > tl, d.name, str(s), " zero distance ", a, " ", b);
      for (size_t k = 0; triangle && k < n; ++k) {
        MC_CHECK(c, dist[a * n + k] <= dist[a * n + b] + dist[b * n + k] + tl, d.name, str(s), " triangle ", a, " ", b, " ", k);
      }
    }
  }
}

MC_FAMILY(tables, "all lattices, all shapes, both boundaries, all pairs (brute force minimum image)", 4)
{
  auto const& d = c.pick(all());
  auto b = c.pick({ Closed, Open });
  auto s = shapes::choose_shape(c, d.dim, maxsize(d.dim, 40), mc::bound<size_t>(d.dim >= 4 ? 36 : 60, d.dim >= 4 ? 16 : 30, 100, 48));
  auto l = bwsl::Lattice(d.make(), s, b);
  check(c, d, l, s, b == Closed, b == Open || l.GetNumSites() <= 36);
}

MC_FAMILY(many_dims, "lattices of 7 to 10 dimensions, few sites (open, thorough: closed ones of 7 dimensions too)", 3)
{
  auto s = shapes::choose_many(c, 7, mc::bound<size_t>(10, 8, 12, 9), mc::bound<size_t>(12, 8, 24, 12));
  auto b = c.pick({ Closed, Open });
  c.assume(b == Open || (s.size() <= 7 && shapes::nsites(s) <= mc::bound<size_t>(2, 0, 6, 2)));
  auto d = hyper(s.size(), c.flip());
  auto l = bwsl::Lattice(d.make(), s, b);
  check(c, d, l, s, b == Closed, false);
}

MC_FAMILY(units, "all lattices in units of length of 2^-480 to 2^480: few shapes, both boundaries, all pairs", 4)
{
  auto const& plain = c.pick(all());
  auto e = c.pick(mc::bound<std::vector<int>>(units(), { 1, -24, 53, -400 }, units(), { 1, -1, 24, -24, 53, -400, 480, -480 }));
  c.assume(plain.dim <= 3 || e == -24 || e == 53 || e == -400 || mc::thorough);
  auto d = scaled(plain, e);
  auto b = c.pick({ Closed, Open });
  auto s = shapes::choose_shape(c, d.dim, 4, mc::bound<size_t>(d.dim >= 4 ? 3 : 9, d.dim >= 4 ? 2 : 4, d.dim >= 4 ? 4 : 12, d.dim >= 4 ? 2 : 6));
  auto l = bwsl::Lattice(d.make(), s, b);
  check(c, d, l, s, b == Closed, true);
}

MC_FAMILY(elongated, "very elongated and skewed cells", 4)
{
  auto const& d = c.pick(all());
  c.assume(d.dim == 2 || d.dim == 1);
  auto b = c.pick({ Closed, Open });
  auto n = static_cast<size_t>(c.range(13, mc::bound<long>(40, 20, 90, 36)));
  auto m = static_cast<size_t>(c.range(1, mc::bound<long>(3, 2, 5, 3)));
  auto s = d.dim == 1 ? Sizes{ n * m } : c.flip() ? Sizes{ n, m } : Sizes{ m, n };
  auto l = bwsl::Lattice(d.make(), s, b);
  check(c, d, l, s, b == Closed, false);
}

// Every shear of the unit square / cube by quarter steps
MC_FAMILY(shears, "all sheared cells (shear in quarter steps from -3 to 3) and aspect ratios", 4)
{
  Def d;
  d.dim = 2;
  auto sh = static_cast<double>(c.range(-12, 12)) / 4;
  auto h = c.pick({ 1.0, 0.25, 3.0, -1.0 });
  auto swap = c.flip();
  d.name = "shear " + std::to_string(sh) + " height " + std::to_string(h);
  d.v = swap ? std::vector<Real>{ { sh, h }, { 1, 0 } } : std::vector<Real>{ { 1, 0 }, { sh, h } };
  d.dirs = { { 1, 0 }, { 0, 1 } };
  auto s = shapes::choose_shape(c, 2, mc::bound<size_t>(6, 4, 9, 6), mc::bound<size_t>(36, 12, 81, 25));
  auto l = bwsl::Lattice(d.make(), s, Closed);
  check(c, d, l, s, true, false);
}

MC_FAMILY(lengths, "long chains and strips with a length of every size around a power of two, both boundaries, all pairs (of eight sites with every other when long)", 3)
{
  auto p = static_cast<size_t>(c.range(5, mc::bound<long>(9, 8, 11, 9)));
  auto off = static_cast<size_t>(c.choose(5));
  auto b = c.pick({ Closed, Open });
  auto const& d = c.pick(all());
  auto n = (size_t{ 1 } << p) + off - 2;
  c.assume(d.dim == 1 || (d.dim == 2 && p <= mc::bound<size_t>(8, 6, 9, 8)) || (d.dim == 3 && p <= mc::bound<size_t>(5, 0, 7, 5)));
  auto s = Sizes(d.dim, 1);
  s[c.choose(static_cast<int>(d.dim))] = n;
  auto l = bwsl::Lattice(d.make(), s, b);
  check(c, d, l, s, b == Closed, false, n > 70 ? n / 7 : 1);
}

// Big cells: there are too many pairs, but the displacement alone decides.
MC_FAMILY(big, "chains and cells of up to more than 2^17 sites, around powers of two: positions, vectors and distances from the first, the middle and the last site and one next to a power of two to all others (of some of them the shortest image by brute force)", 4)
{
  auto const& d = c.pick(all());
  auto b = c.pick({ Closed, Open });
  c.assume(d.dim <= mc::bound<size_t>(3, 2, 4, 3) && (mc::thorough || d.builtin != nullptr || d.name == "chain 2.5"));
  auto n = c.pick(mc::bound<std::vector<size_t>>(wide(), { 257, 65537 }, wide(), { 257, 65537, 131073 }));
  c.assume(d.dim == 1 || n < 300 || n == 32769 || n == 65537 || n > 70000);
  auto s = choose_big(c, d.dim, n);
  auto l = bwsl::Lattice(d.make(), s, b);
  auto dual = d.dual();
  n = shapes::nsites(s);
  double const tol = 1e-12 * (1 + static_cast<double>(*std::max_element(s.begin(), s.end())));
  std::vector<Coords> sites = shapes::all_sites(s);
  for (size_t i = 0; i < n; ++i) {
    auto p = l.GetPosition(i);
    MC_CHECK(c, close(p, d.pos(sites[i]), tol), d.name, str(s), " position of ", i, " is ", str(p));
  }
  for (size_t a : { size_t{ 0 }, n / 2, n - 1, n > 65536 ? size_t{ 65536 } : n > 256 ? size_t{ 256 } : size_t{ 1 } }) {
    for (size_t i = 0; i < n; ++i) {
      Coords x(d.dim);
      for (size_t k = 0; k < d.dim; ++k) {
        x[k] = sites[i][k] - sites[a][k];
        if (b == Closed) {
          x[k] = shapes::pmod(x[k], static_cast<long>(s[k]));
        }
      }
      auto v = l.GetVector(a, i);
      auto r = l.GetDistance(a, i);
      auto r2 = l.GetDistance(i, a);
      MC_CHECK(c, std::fabs(r - len(v)) <= tol && std::fabs(r - r2) <= tol, d.name, str(s), " ", a, " ", i, " distance ", r, " back ", r2, " vector ", str(v));
      MC_CHECK(c, (r <= tol) == (i == a), d.name, str(s), " ", a, " ", i, " distance ", r);
      if (b == Open) {
        MC_CHECK(c, close(v, d.pos(x), tol), d.name, " open ", str(s), " ", a, " ", i, " vector ", str(v));
      } else {
        for (size_t k = 0; k < d.dim; ++k) {
          long double t = 0;
          for (size_t q = 0; q < d.dim; ++q) {
            t += dual[k][q] * v[q];
          }
          auto turns = (t - x[k]) / static_cast<long double>(s[k]);
          MC_CHECK(c, std::fabs(turns - std::round(turns)) <= tol, d.name, " closed ", str(s), " ", a, " ", i, " vector ", str(v), " does not lead to an image");
        }
        auto near = i & (i - 1);
        if (near == 0 || near == 1 || i % 577 == 0 || i + 1 == n) {
          auto want = shortest(d, dual, s, x);
          MC_CHECK(c, std::fabs(r - want) <= tol, d.name, " closed ", str(s), " ", a, " ", i, " distance ", r, " shortest ", static_cast<double>(want));
        }
      }
      if (i % 4096 == 0) {
        c.op("vector ", a, " ", i);
      }
    }
  }
  mc::H h;
  c.state(h.add(d.name).addv(s).add(static_cast<uint64_t>(b == Open)));
}

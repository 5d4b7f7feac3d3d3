#include "lattices.hpp"
using namespace lat;
using shapes::str;

/// All coordinates with components -r..r
static std::vector<Coords>
box(size_t dim, long r)
{
  std::vector<Coords> out;
  Coords x(dim, -r);
  for (;;) {
    out.push_back(x);
    size_t d = dim;
    bool end = true;
    while (d > 0) {
      if (++x[--d] <= r) {
        end = false;
        break;
      }
      x[d] = -r;
    }
    if (end) {
      return out;
    }
  }
}

static long double
maxabs(Coords const& x)
{
  long double m = 1;
  for (auto v : x) {
    m = std::max(m, std::fabs(static_cast<long double>(v)));
  }
  return m;
}

struct Scale
{
  long double v = 1, w = 1; // largest entries of the vectors and of the dual
};

static Scale
scale_of(Def const& d)
{
  Scale s;
  s.v = d.unit;
  s.w = 1 / d.unit;
  for (auto const& r : d.v) {
    for (auto x : r) {
      s.v = std::max(s.v, std::fabs(static_cast<long double>(x)));
    }
  }
  for (auto const& r : d.dual()) {
    for (auto x : r) {
      s.w = std::max(s.w, std::fabs(x));
    }
  }
  return s;
}

static void
point(mc::Ctx& c, Def const& d, bwsl::Bravais const& b, Scale const& sc, Coords const& x)
{
  auto const eps = 1e-13L * static_cast<long double>(d.dim) * static_cast<long double>(d.dim);
  auto arg = x;
  auto p = b.GetRealSpace(arg);
  c.op("GetRealSpace", str(x), "=", str(p));
  MC_CHECK(c, arg == x, "argument modified");
  auto tol = static_cast<double>(eps * maxabs(x) * sc.v);
  MC_CHECK(c, close(p, d.pos(x), tol), d.name, str(x), " is at ", str(p));
  auto back = b.GetInverseVector(p);
  std::vector<long double> lx(x.begin(), x.end());
  MC_CHECK(c, close(back, lx, static_cast<double>(eps * maxabs(x) * sc.v * sc.w * 4)), d.name, str(x), " comes back as ", str(back));
}

static void
two(mc::Ctx& c, Def const& d, bwsl::Bravais const& b, Scale const& sc, Coords const& x, Coords const& y)
{
  auto const eps = 1e-13L * static_cast<long double>(d.dim) * static_cast<long double>(d.dim);
  auto const pi = 3.14159265358979323846264338327950288L;
  // vector and distance
  Coords e(d.dim);
  for (size_t k = 0; k < d.dim; ++k) {
    e[k] = y[k] - x[k];
  }
  auto want = d.pos(e);
  auto tol = static_cast<double>(eps * maxabs(e) * sc.v);
  auto v = b.GetVector(x, y);
  MC_CHECK(c, close(v, want, tol), d.name, str(x), str(y), " vector ", str(v));
  long double l2 = 0;
  for (auto t : want) {
    l2 += t * t;
  }
  auto len = static_cast<double>(std::sqrt(l2));
  auto r = b.GetDistance(x, y);
  MC_CHECK(c, std::fabs(r - len) <= tol + 1e-14 * len, d.name, str(x), str(y), " distance ", r, " expected ", len);
  auto rv = b.GetDistanceVector(x, y);
  MC_CHECK(c, std::fabs(rv.first - len) <= tol + 1e-14 * len, d.name, str(x), str(y), " distance ", rv.first);
  MC_CHECK(c, close(rv.second, want, tol), d.name, str(x), str(y), " distance vector ", str(rv.second));
  // duality: y as a reciprocal vector
  auto p = b.GetRealSpace(x);
  auto g = b.GetReciprocalSpace(y);
  MC_CHECK(c, g.size() == d.dim, d.name);
  long double dot = 0;
  long double prod = 0;
  for (size_t k = 0; k < d.dim; ++k) {
    dot += static_cast<long double>(p[k]) * g[k];
    prod += static_cast<long double>(x[k]) * y[k];
  }
  auto tol2 = 50 * eps * maxabs(x) * maxabs(y) * sc.v * sc.w;
  MC_CHECK(c, std::fabs(dot - 2 * pi * prod) <= tol2, d.name, str(x), str(y), " scalar product ", static_cast<double>(dot), " expected 2 pi ", static_cast<double>(prod));
  c.op("vectors and duality ", str(x), str(y));
}

static void
neighbors(mc::Ctx& c, Def const& d, bwsl::Bravais const& b, Coords const& x, bool unit)
{
  MC_CHECK(c, b.GetDim() == d.dim, d.name);
  MC_CHECK(c, b.GetGamma() == 2 * d.dirs.size(), d.name, b.GetGamma());
  for (size_t k = 0; k < d.dirs.size(); ++k) {
    for (int sg : { 1, -1 }) {
      auto want = x;
      for (size_t q = 0; q < d.dim; ++q) {
        want[q] += sg * d.dirs[k][q];
      }
      auto arg = x;
      auto n = b.GetNeighbor(arg, 2 * k + (sg > 0 ? 0 : 1));
      c.op("GetNeighbor ", str(x), " ", k, " ", sg, " = ", str(n));
      MC_CHECK(c, n == want && arg == x, d.name, str(x), " direction ", k, " sign ", sg, " got ", str(n));
      if (unit) {
        MC_CHECK(c, std::fabs(b.GetDistance(x, n) - 1) < 1e-12, d.name, " neighbour at ", b.GetDistance(x, n));
      }
    }
  }
}

MC_FAMILY(points, "all lattices, all coordinates in a box: positions, back conversion, neighbours", 3)
{
  auto const& d = c.pick(all());
  auto b = d.make();
  auto sc = scale_of(d);
  long const r = d.dim == 1 ? 1000 : d.dim == 2 ? mc::bound(25, 8, 60, 16) : d.dim == 3 ? mc::bound(6, 3, 10, 5) : d.dim == 4 ? mc::bound(3, 2, 4, 2) : mc::bound(d.dim == 5 ? 2 : 1, 1, 2, 1);
  auto first = c.range(-r, r);
  for (auto x : box(d.dim, r)) {
    if (x[0] != first) {
      continue;
    }
    point(c, d, b, sc, x);
    neighbors(c, d, b, x, d.builtin != nullptr);
  }
  mc::H h;
  c.state(h.add(d.name).add(static_cast<uint64_t>(first)));
}

MC_FAMILY(pairs, "all lattices, all pairs of coordinates in a box: vectors, distances, duality", 3)
{
  auto const& d = c.pick(all());
  auto b = d.make();
  auto sc = scale_of(d);
  long const r = d.dim == 1 ? 60 : d.dim == 2 ? mc::bound(5, 3, 8, 4) : d.dim == 3 ? mc::bound(2, 1, 3, 2) : 1;
  auto pts = box(d.dim, r);
  auto const& x = pts[c.choose(static_cast<int>(pts.size()))];
  for (auto const& y : pts) {
    two(c, d, b, sc, x, y);
  }
  mc::H h;
  c.state(h.add(d.name).addv(x));
}

MC_FAMILY(units, "all lattices in units of length of 2^-480 to 2^480: positions, vectors, distances, back conversion, duality, neighbours", 3)
{
  auto d = scaled(c.pick(all()), c.pick(units()));
  auto b = d.make();
  auto sc = scale_of(d);
  auto pts = box(d.dim, d.dim == 1 ? 9 : d.dim == 2 ? mc::bound(3, 2, 5, 3) : d.dim == 3 ? mc::bound(2, 1, 2, 1) : 1);
  auto const& x = pts[c.choose(static_cast<int>(pts.size()))];
  point(c, d, b, sc, x);
  neighbors(c, d, b, x, false);
  for (auto const& y : { Coords(d.dim, 0), Coords(d.dim, -1), pts.front(), pts[pts.size() / 3], x }) {
    two(c, d, b, sc, x, y);
    two(c, d, b, sc, y, x);
  }
  mc::H h;
  c.state(h.add(d.name).addv(x));
}

MC_FAMILY(far_directions, "neighbour directions with a component around a power of two: every neighbour", 3)
{
  Def d;
  d.dim = static_cast<size_t>(c.range(1, 4));
  auto k = static_cast<size_t>(c.choose(static_cast<int>(d.dim)));
  long const p = c.pick({ 6, 7, 8, 14, 15, 16, 23, 24, 30, 31, 32, 40, 52 });
  auto big = (1L << p) + c.range(-2, 2);
  big = c.flip() ? big : -big;
  d.name = "direction " + std::to_string(big) + " in " + std::to_string(k) + " of " + std::to_string(d.dim);
  for (size_t q = 0; q < d.dim; ++q) {
    Real v(d.dim, 0);
    v[q] = 1;
    d.v.push_back(v);
  }
  for (size_t q = 0; q < 3; ++q) {
    Coords e(d.dim, static_cast<long>(q));
    e[k] = big + static_cast<long>(q);
    d.dirs.push_back(e);
  }
  auto b = d.make();
  Coords up(d.dim, 5);
  up[k] = -big;
  for (auto const& x : { Coords(d.dim, 0), up, Coords(d.dim, -70000) }) {
    neighbors(c, d, b, x, false);
    if (p < 40) {
      two(c, d, b, scale_of(d), x, d.dirs[0]);
    }
  }
  mc::H h;
  c.state(h.add(d.name));
}

MC_FAMILY(far, "coordinates around powers of two in one or two components", 4)
{
  auto const& d = c.pick(all());
  auto b = d.make();
  auto sc = scale_of(d);
  std::vector<long> far{ 0, 1 };
  for (long p : { 7, 8, 15, 16, 31, 32, 40 }) {
    for (long k : { -1, 0, 1 }) {
      far.push_back((1L << p) + k);
      far.push_back(-(1L << p) + k);
    }
  }
  Coords x(d.dim, 1);
  auto i = c.choose(static_cast<int>(d.dim));
  auto j = c.choose(i + 1);
  x[i] = c.pick(far);
  x[j] = c.pick(far);
  point(c, d, b, sc, x);
  neighbors(c, d, b, x, false);
  for (auto const& y : { Coords(d.dim, 0), Coords(d.dim, -1), Coords(d.dim, 3), x }) {
    two(c, d, b, sc, x, y);
    two(c, d, b, sc, y, x);
  }
  mc::H h;
  c.state(h.add(d.name).addv(x));
}

/// Every nonsingular cell with small entries
template<int Dim>
static void
cells(mc::Ctx& c, std::vector<double> const& entries)
{
  Def d;
  d.dim = Dim;
  d.name = "cell";
  for (int k = 0; k < Dim; ++k) {
    Real v;
    for (int i = 0; i < Dim; ++i) {
      v.push_back(c.pick(entries));
      d.name += " " + std::to_string(v.back());
    }
    d.v.push_back(v);
    Coords e(Dim, 0);
    e[k] = 1 + k;
    d.dirs.push_back(e);
  }
  double det = Dim == 1 ? d.v[0][0]
               : Dim == 2 ? d.v[0][0] * d.v[1][1] - d.v[0][1] * d.v[1][0]
                          : d.v[0][0] * (d.v[1][1] * d.v[2][2 % Dim] - d.v[1][2 % Dim] * d.v[2 % Dim][1]) -
                              d.v[0][1] * (d.v[1][0] * d.v[2 % Dim][2 % Dim] - d.v[1][2 % Dim] * d.v[2 % Dim][0]) +
                              d.v[0][2 % Dim] * (d.v[1][0] * d.v[2 % Dim][1] - d.v[1][1] * d.v[2 % Dim][0]);
  c.assume(std::fabs(det) > 1e-9);
  auto b = d.make();
  auto sc = scale_of(d);
  auto pts = box(Dim, 1);
  Coords big(Dim);
  for (int k = 0; k < Dim; ++k) {
    big[k] = 3 + 4 * k * (k % 2 == 0 ? 1 : -1);
  }
  pts.push_back(big);
  for (auto const& x : pts) {
    point(c, d, b, sc, x);
    neighbors(c, d, b, x, false);
    two(c, d, b, sc, x, big);
    two(c, d, b, sc, big, x);
    for (auto const& y : pts) {
      if (Dim < 3) {
        two(c, d, b, sc, x, y);
      }
    }
  }
  mc::H h;
  c.state(h.add(d.name));
}

MC_FAMILY(cells1, "all one dimensional cells over several lengths", 1)
{
  cells<1>(c, { 1, -1, 0.5, 3, -0.125, 1e-3, 1e6 });
}
MC_FAMILY(cells2, "all two dimensional cells with entries in -1.5 to 2", 3)
{
  cells<2>(c, mc::bound<std::vector<double>>({ 0, 1, -1, 0.5, 2, -1.5 }, { 0, 1, -1, 0.5 }, { 0, 1, -1, 0.5, 2, -1.5, 3, 0.1 }, { 0, 1, -1, 0.5, 2 }));
}
MC_FAMILY(cells3, "all three dimensional cells with entries in {0, 1, -0.5} (thorough: one more)", 5)
{
  cells<3>(c, mc::bound<std::vector<double>>({ 0, 1, -0.5 }, { 0, 1 }, { 0, 1, -0.5, 2 }, { 0, 1, -0.5 }));
}

MC_FAMILY(directions, "lattices of one to six dimensions with one to forty directions: every neighbour, and the geometry around it", 3)
{
  Def d;
  d.dim = static_cast<size_t>(c.range(1, 6));
  auto m = static_cast<size_t>(c.range(1, mc::bound<long>(20, 12, 40, 24)));
  auto style = c.choose(2);
  d.name = "dimension " + std::to_string(d.dim) + " directions " + std::to_string(m);
  for (size_t k = 0; k < d.dim; ++k) {
    Real v;
    for (size_t i = 0; i < d.dim; ++i) {
      v.push_back(style == 0 ? (i == k ? 1.0 : 0.0) : (i == k ? 2.0 : (i + 2 * k) % 3 * 0.25 - 0.25));
    }
    d.v.push_back(v);
  }
  for (size_t k = 0; k < m; ++k) {
    Coords e(d.dim);
    for (size_t i = 0; i < d.dim; ++i) {
      e[i] = static_cast<long>((k + 1) * (i + 1) % 7 + k / 3 * (i % 2)) - static_cast<long>(i);
    }
    d.dirs.push_back(e);
  }
  auto b = d.make();
  auto sc = scale_of(d);
  Coords up(d.dim);
  for (size_t i = 0; i < d.dim; ++i) {
    up[i] = static_cast<long>(i * i) - 5;
  }
  for (auto const& x : { Coords(d.dim, 0), up, Coords(d.dim, -100000) }) {
    neighbors(c, d, b, x, false);
    point(c, d, b, sc, x);
    two(c, d, b, sc, x, up);
    two(c, d, b, sc, up, x);
  }
  mc::H h;
  c.state(h.add(d.name).add(static_cast<uint64_t>(style)));
}

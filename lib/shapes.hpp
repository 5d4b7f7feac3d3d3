// Grid shapes and the boring reference model of a grid.
#pragma once
#include "mc.hpp"
#include <bwsl/HyperCubicGrid.hpp>

namespace shapes {
using Sizes = std::vector<size_t>;
using Coords = std::vector<long>;
using Grid = bwsl::HyperCubicGrid;
constexpr auto Open = Grid::boundaries_t::Open;
constexpr auto Closed = Grid::boundaries_t::Closed;

inline std::string
str(Sizes const& s)
{
  std::string o = "[";
  for (auto x : s) {
    o += std::to_string(x) + " ";
  }
  return o + "]";
}
inline std::string
str(Coords const& s)
{
  std::string o = "(";
  for (auto x : s) {
    o += std::to_string(x) + " ";
  }
  return o + ")";
}
inline std::string
str(std::vector<double> const& s)
{
  std::ostringstream o;
  o.precision(17);
  o << "(";
  for (auto x : s) {
    o << x << " ";
  }
  return o.str() + ")";
}

inline size_t
nsites(Sizes const& s)
{
  size_t n = 1;
  for (auto x : s) {
    n *= x;
  }
  return n;
}

/// Every shape of `dim` dimensions with at most `maxsites` sites and sizes up
/// to `maxsize` (decided by the explorer, one dimension at a time).
inline Sizes
choose_shape(mc::Ctx& c, size_t dim, size_t maxsize, size_t maxsites)
{
  Sizes s;
  size_t n = 1;
  for (size_t d = 0; d < dim; ++d) {
    auto top = std::min(maxsize, maxsites / n);
    s.push_back(static_cast<size_t>(c.range(1, static_cast<long>(top))));
    n *= s.back();
  }
  return s;
}

/// Shapes of lo to hi dimensions: two sides longer than one anywhere, all sides
/// of two, sides of one, two and three in turn (ones when there are enough
/// sites).
inline Sizes
choose_many(mc::Ctx& c, size_t lo, size_t hi, size_t maxsites)
{
  auto dim = static_cast<size_t>(c.range(static_cast<long>(lo), static_cast<long>(hi)));
  Sizes s(dim, 1);
  auto style = c.choose(4);
  if (style == 0) {
    auto i = static_cast<size_t>(c.choose(static_cast<int>(dim)));
    auto j = static_cast<size_t>(c.choose(static_cast<int>(i) + 1));
    s[i] = 3;
    s[j] = 5;
    return s;
  }
  size_t n = 1;
  for (size_t d = 0; d < dim; ++d) {
    auto at = style == 3 ? dim - 1 - d : d;
    auto k = style == 2 ? d % 3 + 1 : size_t{ 2 };
    if (n * k <= maxsites) {
      s[at] = k;
      n *= k;
    }
  }
  return s;
}

/// Coordinates of site i by counting (the last one varies fastest).
inline std::vector<Coords>
all_sites(Sizes const& s)
{
  std::vector<Coords> out;
  Coords x(s.size(), 0);
  auto n = nsites(s);
  for (size_t i = 0; i < n; ++i) {
    out.push_back(x);
    for (size_t d = s.size(); d-- > 0;) {
      if (++x[d] < static_cast<long>(s[d])) {
        break;
      }
      x[d] = 0;
    }
  }
  return out;
}

/// Site number of on-grid coordinates (Horner).
inline size_t
site_of(Coords const& x, Sizes const& s)
{
  size_t n = 0;
  for (size_t d = 0; d < s.size(); ++d) {
    n = n * s[d] + static_cast<size_t>(x[d]);
  }
  return n;
}

/// Coordinates of one site (the inverse of site_of)
inline Coords
coords_of(size_t i, Sizes const& s)
{
  Coords x(s.size());
  for (size_t d = s.size(); d-- > 0;) {
    x[d] = static_cast<long>(i % s[d]);
    i /= s[d];
  }
  return x;
}

inline long
pmod(long a, long m)
{
  auto r = a % m;
  return r < 0 ? r + m : r;
}
} // namespace shapes

// The infinite lattices the checks explore, with their own independent
// description (vectors, directions) and a boring geometry.
#pragma once
#include "shapes.hpp"
#include <bwsl/Bravais.hpp>
#include <bwsl/Lattice.hpp>
#include <cmath>

namespace lat {
using shapes::Closed;
using shapes::Coords;
using shapes::Open;
using shapes::Sizes;
using Real = std::vector<double>;

struct Def
{
  std::string name;
  size_t dim;
  std::vector<Real> v;      // v[k]: the k-th lattice vector
  std::vector<Coords> dirs; // neighbour directions (half of the neighbours)
  bwsl::Bravais const* builtin = nullptr;
  bool exact = false;       // all positions are exact in floating point
  double unit = 1;          // of length

  /// long double inverse: rows w[k] with w[k].v[l] = delta_kl
  std::vector<std::vector<long double>> dual() const
  {
    auto n = dim;
    // Gauss-Jordan on the matrix with rows v[k]; we want w with V w^T = 1
    std::vector<std::vector<long double>> a(n, std::vector<long double>(2 * n, 0.0L));
    for (size_t i = 0; i < n; ++i) {
      for (size_t j = 0; j < n; ++j) {
        a[i][j] = v[i][j];
      }
      a[i][n + i] = 1.0L;
    }
    for (size_t p = 0; p < n; ++p) {
      size_t best = p;
      for (size_t i = p; i < n; ++i) {
        if (std::fabs(a[i][p]) > std::fabs(a[best][p])) {
          best = i;
        }
      }
      std::swap(a[p], a[best]);
      auto q = a[p][p];
      for (auto& x : a[p]) {
        x /= q;
      }
      for (size_t i = 0; i < n; ++i) {
        if (i != p) {
          auto f = a[i][p];
          for (size_t j = 0; j < 2 * n; ++j) {
            a[i][j] -= f * a[p][j];
          }
        }
      }
    }
    // a[:, n:] = V^{-1}, whose column k is the dual of v[k]
    std::vector<std::vector<long double>> w(n, std::vector<long double>(n));
    for (size_t k = 0; k < n; ++k) {
      for (size_t j = 0; j < n; ++j) {
        w[k][j] = a[j][n + k];
      }
    }
    return w;
  }

  bwsl::Bravais make() const
  {
    if (builtin != nullptr) {
      return *builtin;
    }
    Real p;
    Real inv(dim * dim);
    bwsl::Bravais::neighbors_t nn;
    auto w = dual();
    for (size_t k = 0; k < dim; ++k) {
      for (size_t i = 0; i < dim; ++i) {
        p.push_back(v[k][i]);
        inv[k * dim + i] = static_cast<double>(w[k][i]);
      }
    }
    for (auto const& d : dirs) {
      nn.insert(nn.end(), d.begin(), d.end());
    }
    return bwsl::Bravais(dim, 2 * dirs.size(), p, inv, nn);
  }

  std::vector<long double> pos(Coords const& x) const
  {
    std::vector<long double> r(dim, 0.0L);
    for (size_t k = 0; k < dim; ++k) {
      for (size_t i = 0; i < dim; ++i) {
        r[i] += static_cast<long double>(x[k]) * v[k][i];
      }
    }
    return r;
  }
};

inline std::vector<Def> const&
all()
{
  static std::vector<Def> const d = [] {
    auto h = std::sqrt(3.0) / 2;
    std::vector<Def> v;
    v.push_back({ "chain", 1, { { 1 } }, { { 1 } }, &bwsl::ChainLattice, true });
    v.push_back({ "square", 2, { { 1, 0 }, { 0, 1 } }, { { 1, 0 }, { 0, 1 } }, &bwsl::SquareLattice, true });
    v.push_back({ "cubic", 3, { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } }, { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } }, &bwsl::CubicLattice, true });
    v.push_back({ "triangular", 2, { { 1, 0 }, { 0.5, h } }, { { 1, 0 }, { 0, 1 }, { 1, -1 } }, &bwsl::TriangularLattice, false });
    // user defined ones
    v.push_back({ "chain 2.5", 1, { { 2.5 } }, { { 1 }, { 2 } }, nullptr, true });
    v.push_back({ "inverted chain", 1, { { -0.5 } }, { { 3 } }, nullptr, true });
    v.push_back({ "rectangular", 2, { { 2, 0 }, { 0, 0.5 } }, { { 1, 0 }, { 0, 1 } }, nullptr, true });
    v.push_back({ "square J1-J2", 2, { { 1, 0 }, { 0, 1 } }, { { 1, 0 }, { 0, 1 }, { 1, 1 }, { 1, -1 } }, nullptr, true });
    v.push_back({ "oblique", 2, { { 1, 0.25 }, { -0.5, 1.5 } }, { { 1, 0 }, { 0, 1 }, { 1, 1 } }, nullptr, true });
    v.push_back({ "sheared", 2, { { 1, 0 }, { 0.75, 0.25 } }, { { 1, 0 }, { 0, 1 } }, nullptr, true });
    v.push_back({ "very sheared", 2, { { 1, 0 }, { 3, 1 } }, { { 1, 0 }, { -3, 1 } }, nullptr, true });
    v.push_back({ "rotated", 2, { { 0.6, 0.8 }, { -0.8, 0.6 } }, { { 1, 0 }, { 0, 1 } }, nullptr, false });
    v.push_back({ "orthorhombic", 3, { { 1, 0, 0 }, { 0, 2, 0 }, { 0, 0, 0.5 } }, { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } }, nullptr, true });
    v.push_back({ "fcc", 3, { { 0, 0.5, 0.5 }, { 0.5, 0, 0.5 }, { 0.5, 0.5, 0 } }, { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 1, -1, 0 }, { 1, 0, -1 }, { 0, 1, -1 } }, nullptr, true });
    v.push_back({ "bcc", 3, { { -0.5, 0.5, 0.5 }, { 0.5, -0.5, 0.5 }, { 0.5, 0.5, -0.5 } }, { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 1, 1, 1 } }, nullptr, true });
    v.push_back({ "triclinic", 3, { { 1, 0.25, -0.5 }, { 0.25, 1.5, 0.125 }, { 1, 0, 2 } }, { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 2, -1, 0 } }, nullptr, true });
    v.push_back({ "tesseract", 4, { { 1, 0, 0, 0 }, { 0, 1, 0, 0 }, { 0, 0, 1, 0 }, { 0, 0, 0, 1 } }, { { 1, 0, 0, 0 }, { 0, 1, 0, 0 }, { 0, 0, 1, 0 }, { 0, 0, 0, 1 } }, nullptr, true });
    v.push_back({ "skew 4", 4, { { 1, 0.5, 0, 0 }, { 0, 1, 0.25, 0 }, { 0, 0, 1, 0.5 }, { 0.5, 0, 0, 2 } }, { { 1, 0, 0, 0 }, { 0, 1, 0, -1 }, { 0, 0, 1, 0 } }, nullptr, true });
    v.push_back({ "skew 5", 5, { { 1, 0, 0, 0.5, 0 }, { 0, 2, 0, 0, 0.25 }, { 0, 0.5, 1, 0, 0 }, { 0, 0, 0, 1.5, 0 }, { 0.25, 0, 0, 0, 1 } }, { { 1, 0, 0, 0, 0 }, { 0, 1, 0, 0, 1 }, { 0, 0, 1, 0, 0 }, { 0, 0, 0, 1, 0 }, { 0, 0, 0, 0, 1 } }, nullptr, true });
    v.push_back({ "orthogonal 6", 6, { { 1, 0, 0, 0, 0, 0 }, { 0, 0.5, 0, 0, 0, 0 }, { 0, 0, 2, 0, 0, 0 }, { 0, 0, 0, 1, 0, 0 }, { 0, 0, 0, 0, 1.5, 0 }, { 0, 0, 0, 0, 0, 0.75 } }, { { 1, 0, 0, 0, 0, 0 }, { 0, 0, 1, 0, -1, 0 }, { 0, 0, 0, 0, 0, 1 } }, nullptr, true });
    return v;
  }();
  return d;
}

/// Lattices of any number of dimensions
inline Def
hyper(size_t dim, bool skew)
{
  Def d;
  d.dim = dim;
  d.name = std::to_string(dim) + (skew ? " dimensions, skew" : " dimensions, rectangular");
  for (size_t k = 0; k < dim; ++k) {
    Real v(dim, 0);
    v[k] = skew ? 1 : 1 + 0.25 * static_cast<double>(k);
    if (skew && k + 1 < dim) {
      v[k + 1] = k % 2 == 0 ? 0.5 : -0.25;
    }
    d.v.push_back(v);
    Coords e(dim, 0);
    e[k] = 1;
    if (k % 3 == 2) {
      e[0] = -1;
    }
    d.dirs.push_back(e);
  }
  return d;
}

/// The same lattice in another unit of length (a power of two, so that every
/// length is multiplied exactly)
inline Def
scaled(Def const& d, int e)
{
  auto s = d;
  s.unit = std::ldexp(1.0, e);
  s.name += " times 2^" + std::to_string(e);
  s.builtin = e == 0 ? d.builtin : nullptr;
  for (auto& r : s.v) {
    for (auto& x : r) {
      x *= s.unit;
    }
  }
  return s;
}
/// Units whose squares are still ordinary numbers
inline std::vector<int> const&
units()
{
  static std::vector<int> const e{ 1, -1, 10, -10, 24, -24, -30, 53, -53, 100, -100, 200, -200, 400, -400, 480, -480 };
  return e;
}

/// Numbers of sites per side around powers of two, where a narrower integer
/// would wrap or a table would be split
inline std::vector<size_t> const&
wide()
{
  static std::vector<size_t> const w{ 127, 128, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, 70001, 131073 };
  return w;
}

/// A cell of n sites or a few more with sides of similar lengths (the longest
/// in a direction picked by the explorer)
inline Sizes
choose_big(mc::Ctx& c, size_t dim, size_t n)
{
  auto side = static_cast<size_t>(std::pow(static_cast<double>(n) + 0.5, 1.0 / static_cast<double>(dim)));
  auto k = static_cast<size_t>(c.choose(static_cast<int>(dim)));
  Sizes s(dim, dim == 1 ? n : std::max<size_t>(side, 1));
  size_t rest = 1;
  for (size_t i = 0; i < dim; ++i) {
    rest *= i == k ? 1 : s[i];
  }
  s[k] = (n + rest - 1) / rest;
  return s;
}

/// Allowed sizes per dimension for a lattice of dimension dim
inline size_t
maxsize(size_t dim, size_t one)
{
  size_t const m[] = { 0, one, 12, 6, 3, 2, 2 };
  return m[dim];
}

inline double
len(std::vector<double> const& v)
{
  long double s = 0;
  for (auto x : v) {
    s += static_cast<long double>(x) * x;
  }
  return static_cast<double>(std::sqrt(s));
}

/// |v-w| below tol
inline bool
close(std::vector<double> const& v, std::vector<long double> const& w, double tol)
{
  if (v.size() != w.size()) {
    return false;
  }
  for (size_t i = 0; i < v.size(); ++i) {
    if (!(std::fabs(static_cast<long double>(v[i]) - w[i]) <= tol)) {
      return false;
    }
  }
  return true;
}
} // namespace lat

// Reference model of rationals: 128 bit fractions in lowest terms.
#pragma once
#include "mc.hpp"
#include <bwsl/RationalNum.hpp>

namespace rat {
using I = __int128;

inline I
iabs(I x)
{
  return x < 0 ? -x : x;
}

inline I
gcd(I a, I b)
{
  a = iabs(a);
  b = iabs(b);
  while (b != 0) {
    auto t = a % b;
    a = b;
    b = t;
  }
  return a;
}

struct M
{
  I n = 0, d = 1;
  M() = default;
  M(I num, I den)
    : n(num)
    , d(den)
  {
    auto g = gcd(n, d);
    if (d < 0) {
      g = -g;
    }
    n /= g;
    d /= g;
  }
};

inline int
cmp(M const& a, M const& b)
{
  auto x = a.n * b.d;
  auto y = b.n * a.d;
  return x < y ? -1 : x > y ? 1 : 0;
}

template<class T>
inline bool
fits(I x)
{
  return x <= static_cast<I>(std::numeric_limits<T>::max()) && x >= static_cast<I>(std::numeric_limits<T>::min());
}

inline std::string
str(M const& m)
{
  return std::to_string(static_cast<long>(m.n)) + "//" + std::to_string(static_cast<long>(m.d));
}

/// can n/d be written in lowest terms with a positive denominator
template<class T>
inline bool
representable(I n, I d)
{
  if (d == 0 || !fits<T>(n) || !fits<T>(d)) {
    return false;
  }
  auto m = M(n, d);
  return fits<T>(m.n) && fits<T>(m.d);
}

template<class T>
inline std::string
str(bwsl::RationalNum<T> const& r)
{
  return std::to_string(r.GetNum()) + "//" + std::to_string(r.GetDen());
}

template<class T>
inline bool
same(bwsl::RationalNum<T> const& r, M const& m)
{
  return static_cast<I>(r.GetNum()) == m.n && static_cast<I>(r.GetDen()) == m.d;
}

/// arithmetic: op 0..3 = + - * /; false if an intermediate does not fit T
template<class T>
inline bool
apply(int op, M const& a, M const& b, M& r)
{
  auto f = [](I x) { return fits<T>(x); };
  I n;
  I d;
  switch (op) {
    case 0:
    case 1: {
      auto x = a.n * b.d;
      auto y = b.n * a.d;
      n = op == 0 ? x + y : x - y;
      d = a.d * b.d;
      if (!f(x) || !f(y)) {
        return false;
      }
      break;
    }
    case 2:
      n = a.n * b.n;
      d = a.d * b.d;
      break;
    default:
      n = a.n * b.d;
      d = a.d * b.n;
      if (b.n == 0) {
        return false;
      }
  }
  if (!f(n) || !f(d)) {
    return false;
  }
  r = M(n, d);
  return f(r.n) && f(r.d); // the most negative number has no opposite
}

template<class T>
inline bwsl::RationalNum<T>
real(int op, bwsl::RationalNum<T> const& a, bwsl::RationalNum<T> const& b)
{
  return op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b;
}
template<class T>
inline bwsl::RationalNum<T>
real(int op, bwsl::RationalNum<T> const& a, T const& b)
{
  return op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b;
}
template<class T>
inline bwsl::RationalNum<T>
real(int op, T const& a, bwsl::RationalNum<T> const& b)
{
  return op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b;
}

/// numbers around the interesting magnitudes of T
template<class T>
inline std::vector<T>
edges(bool negative)
{
  std::vector<T> v{ 1, 2, 3, 4, 6, 7, 10 };
  auto add = [&](I x) {
    if (x > 0 && fits<T>(x) && std::find(v.begin(), v.end(), static_cast<T>(x)) == v.end()) {
      v.push_back(static_cast<T>(x));
    }
  };
  for (int p : { 7, 8, 15, 16, 24, 31, 32, 53, 62 }) {
    for (int k : { -1, 0, 1 }) {
      add((I(1) << p) + k);
    }
  }
  I max = std::numeric_limits<T>::max();
  add(max);
  add(max - 1);
  add(max / 2);
  add(max / 3);
  add(sizeof(T) == 8 ? 3037000499L : 46340L);
  if (negative) {
    auto n = v.size();
    for (size_t i = 0; i < n; ++i) {
      v.push_back(-v[i]);
    }
    v.push_back(0);
    v.push_back(std::numeric_limits<T>::min());
  }
  return v;
}
} // namespace rat

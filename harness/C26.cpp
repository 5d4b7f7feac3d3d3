#include "mc.hpp"
#include <bwsl/MathUtils.hpp>
#include <cmath>

using i128 = __int128;

template<class T>
static char const*
tname()
{
  return __PRETTY_FUNCTION__ + 36;
}
template<class T>
static bool
fits(i128 x)
{
  return x >= static_cast<i128>(std::numeric_limits<T>::min()) && x <= static_cast<i128>(std::numeric_limits<T>::max());
}
static std::string
s128(i128 x)
{
  if (x < 0) {
    return "-" + s128(-x);
  }
  return (x >= 10 ? s128(x / 10) : std::string()) + static_cast<char>('0' + static_cast<int>(x % 10));
}

/// interesting values of a type: all of a small one, else boundaries
template<class T>
static std::vector<T> const&
values(bool few = false)
{
  static std::vector<T> v[2];
  auto& r = v[few];
  if (r.empty()) {
    auto lo = static_cast<i128>(std::numeric_limits<T>::min());
    auto hi = static_cast<i128>(std::numeric_limits<T>::max());
    std::vector<i128> w;
    if (sizeof(T) == 1 || (sizeof(T) == 2 && !few)) {
      for (auto x = lo; x <= hi; ++x) {
        w.push_back(x);
      }
    } else {
      for (long k = 0; k <= (few ? 40 : 4000); ++k) {
        w.push_back(k);
        w.push_back(-k);
        w.push_back(lo + k);
        w.push_back(hi - k);
      }
      for (int b = 6; b < 64; ++b) {
        for (long k = few ? -1 : -3; k <= (few ? 1 : 3); ++k) {
          w.push_back((static_cast<i128>(1) << b) + k);
          w.push_back(-(static_cast<i128>(1) << b) + k);
        }
      }
      for (auto r3 : { 3037000499L, 3037000500L, 2097151L, 2097152L, 46340L, 46341L, 1290L, 1291L, 4294967295L, 2642245L, 2642246L, 1625L, 1626L }) {
        w.push_back(r3);
        w.push_back(-r3);
      }
    }
    std::sort(w.begin(), w.end());
    w.erase(std::unique(w.begin(), w.end()), w.end());
    for (auto x : w) {
      if (x >= lo && x <= hi) {
        r.push_back(static_cast<T>(x));
      }
    }
    // simple ones first
    std::stable_sort(r.begin(), r.end(), [](T a, T b) {
      auto x = static_cast<i128>(a);
      auto y = static_cast<i128>(b);
      return (x < 0 ? -x : x) < (y < 0 ? -y : y);
    });
  }
  return r;
}

template<class T>
static void
unary(mc::Ctx& c)
{
  auto const& v = values<T>();
  auto per = (v.size() + 63) / 64;
  auto from = static_cast<size_t>(c.choose(64)) * per;
  for (auto i = from; i < std::min(v.size(), from + per); ++i) {
    auto x = v[i];
    auto w = static_cast<i128>(x);
    MC_CHECK(c, bwsl::sgn(x) == (w > 0) - (w < 0), "sgn(", s128(w), ") is ", bwsl::sgn(x));
    auto const root = i128{ 1 } << 33; // larger ones have no representable square
    if (w < root && w > -root && fits<T>(w * w)) {
      MC_CHECK(c, static_cast<i128>(bwsl::square(x)) == w * w, "square(", s128(w), ") is ", s128(bwsl::square(x)), " in ", sizeof(T), " bytes");
      if (w < (root >> 11) && w > -(root >> 11) && fits<T>(w * w * w)) {
        MC_CHECK(c, static_cast<i128>(bwsl::cube(x)) == w * w * w, "cube(", s128(w), ") is ", s128(bwsl::cube(x)), " in ", sizeof(T), " bytes");
      }
    }
    ++c.ops;
    c.state(mc::H().add(static_cast<uint64_t>(x)).add(sizeof(T)).add(std::is_signed_v<T>));
  }
}
MC_FAMILY(integers, "square, cube and sign of every value of the 8 and 16 bit types and of the boundaries of the others", 2)
{
  switch (c.choose(11)) {
    case 0: unary<int>(c); break;
    case 1: unary<long>(c); break;
    case 2: unary<unsigned>(c); break;
    case 3: unary<unsigned long>(c); break;
    case 4: unary<short>(c); break;
    case 5: unary<unsigned short>(c); break;
    case 6: unary<signed char>(c); break;
    case 7: unary<unsigned char>(c); break;
    case 8: unary<char>(c); break;
    case 9: unary<long long>(c); break;
    default: unary<unsigned long long>(c); break;
  }
}

template<class T>
static void
floating(mc::Ctx& c)
{
  static std::vector<T> const v = [] {
    std::vector<T> w;
    for (double x : { 0.0, -0.0, 1.0, -1.0, 0.1, -0.1, 3.25, -1e10, 1e-10, 1e30, -1e-30, 5e-324, 1e12, 123456.789 }) {
      w.push_back(static_cast<T>(x));
    }
    // all the digits of the type, and its smallest and large numbers
    w.push_back(static_cast<T>(3.14159265358979323846264338327950288L));
    w.push_back(-1 / T(3));
    w.push_back(1 + std::numeric_limits<T>::epsilon());
    w.push_back(std::numeric_limits<T>::min());
    w.push_back(-std::numeric_limits<T>::denorm_min());
    w.push_back(std::ldexp(-1 / T(7), std::numeric_limits<T>::max_exponent / 3 - 6));
    w.push_back(std::ldexp(1 / T(3), std::numeric_limits<T>::max_exponent - 20));
    w.push_back(std::ldexp(5 / T(3), std::numeric_limits<T>::min_exponent / 2));
    return w;
  }();
  auto const x = c.pick(v);
  auto l = static_cast<long double>(x);
  auto eps = static_cast<long double>(std::numeric_limits<T>::epsilon());
  auto tiny = static_cast<long double>(std::numeric_limits<T>::min());
  c.op("x = ", x);
  MC_CHECK(c, bwsl::sgn(x) == (l > 0) - (l < 0), "sgn(", x, ") is ", bwsl::sgn(x));
  auto near = [&](long double got, long double want, char const* what) {
    if (std::fabs(want) < static_cast<long double>(std::numeric_limits<T>::max())) {
      MC_CHECK(c, std::fabs(got - want) <= 2 * eps * std::fabs(want) + tiny, what, "(", x, ") is ", got);
    }
  };
  near(bwsl::square(x), l * l, "square");
  near(bwsl::cube(x), l * l * l, "cube");
  MC_CHECK(c, bwsl::heaviside(x) == (l >= 0 ? 1 : 0), "heaviside(", x, ") is ", bwsl::heaviside(x));
  MC_CHECK(c, bwsl::heaviside2(x) == (l > 0 ? T(1) : l == 0 ? T(0.5) : T(0)), "heaviside2(", x, ") is ", bwsl::heaviside2(x));
  auto y = c.pick(v);
  // |x-y|
  auto d = static_cast<long double>(bwsl::absdiff(x, y));
  auto want = std::fabs(l - static_cast<long double>(y));
  MC_CHECK(c, std::fabs(d - want) <= eps * want + tiny && d >= 0, "absdiff(", x, ", ", y, ") is ", d);
  // interpolation
  MC_CHECK(c, bwsl::lerp(x, y, T(0)) == x, "lerp(", x, ", ", y, ", 0) is ", bwsl::lerp(x, y, T(0)));
  MC_CHECK(c, bwsl::lerp(x, y, T(1)) == y, "lerp(", x, ", ", y, ", 1) is ", bwsl::lerp(x, y, T(1)));
  auto z = static_cast<long double>(y);
  for (double td : { 0.5, 0.25, 0.1, 0.9, 1.0 / 3, 2.0, -1.0, 1e-9, 1 - 1e-7, -0.3, 7.7 }) {
    auto t = static_cast<T>(td);
    auto s = static_cast<long double>(t);
    auto got = static_cast<long double>(bwsl::lerp(x, y, t));
    auto p = (1 - s) * l + s * z;
    auto lim = 4 * eps * (std::fabs((1 - s) * l) + std::fabs(s * z) + std::fabs(l) + std::fabs(z)) + 8 * tiny;
    MC_CHECK(c, std::fabs(got - p) <= lim, "lerp(", x, ", ", y, ", ", t, ") is ", got, " expected ", p);
  }
  auto ratio = [&](auto i, auto j) {
    auto got = static_cast<long double>(bwsl::lerpi(i, j, x, y));
    auto s = static_cast<long double>(i) / static_cast<long double>(j);
    auto p = (1 - s) * l + s * z;
    auto lim = 6 * eps * (std::fabs((1 - s) * l) + std::fabs(s * z) + (1 + std::fabs(s)) * (std::fabs(l) + std::fabs(z))) + 8 * tiny;
    MC_CHECK(c, std::fabs(got - p) <= lim, "lerpi(", i, ", ", j, ", ", x, ", ", y, ") is ", got, " expected ", p);
    if (i == 0) {
      MC_CHECK(c, got == l, "lerpi(0, ", j, ") is ", got, " expected ", x);
    }
    if (i == j) {
      MC_CHECK(c, got == z, "lerpi(", i, ", ", j, ") is ", got, " expected ", y);
    }
  };
  for (int j : { 1, 2, 3, 10, 1000, -4 }) {
    for (int i : { 0, 1, 2, 3, 7, 10, 1000, -1, -4, 4000 }) {
      ratio(i, j);
      ratio(static_cast<long>(i), static_cast<long>(j));
      ratio(static_cast<short>(i), static_cast<short>(j));
      if (i >= 0 && j > 0) {
        ratio(static_cast<unsigned>(i), static_cast<unsigned>(j));
        ratio(static_cast<size_t>(i), static_cast<size_t>(j));
        if (i < 256 && j < 256) {
          ratio(static_cast<unsigned char>(i), static_cast<unsigned char>(j));
        }
      }
    }
  }
  ratio(1L << 40, 1L << 41);
  ratio((1UL << 63) + 2048, 1UL << 63);
  c.state(mc::H().add(static_cast<double>(x)).add(static_cast<double>(y)).add(sizeof(T)));
}
MC_FAMILY(floating, "square, cube, sign, steps, difference and interpolation over all pairs of twenty two numbers of three floating types", 2)
{
  switch (c.choose(3)) {
    case 0: floating<double>(c); break;
    case 1: floating<float>(c); break;
    default: floating<long double>(c); break;
  }
}

template<class T, class R>
static void
signed_difference(mc::Ctx& c, T a, T b)
{
  auto d = static_cast<i128>(a) - static_cast<i128>(b);
  if (fits<R>(d)) {
    auto got = static_cast<i128>(bwsl::signeddiff<T, R>(a, b));
    MC_CHECK(c, got == d, "signeddiff(", s128(a), ", ", s128(b), ") is ", s128(got), " from ", sizeof(T), " to ", sizeof(R), " bytes");
  }
}
template<class T>
static void
binary(mc::Ctx& c)
{
  auto const& v = values<T>(true);
  auto per = (v.size() + 63) / 64;
  auto from = static_cast<size_t>(c.choose(64)) * per;
  for (auto i = from; i < std::min(v.size(), from + per); ++i) {
    for (auto b : v) {
      auto a = v[i];
      auto d = static_cast<i128>(a) - static_cast<i128>(b);
      auto m = d < 0 ? -d : d;
      if (fits<T>(m)) {
        auto got = static_cast<i128>(bwsl::absdiff(a, b));
        MC_CHECK(c, got == m, "absdiff(", s128(a), ", ", s128(b), ") is ", s128(got), " in ", sizeof(T), " bytes");
      }
      if constexpr (!std::is_signed_v<T>) {
        signed_difference<T, int>(c, a, b);
        signed_difference<T, long>(c, a, b);
        signed_difference<T, short>(c, a, b);
        signed_difference<T, signed char>(c, a, b);
      }
      // greatest common divisor
{
        auto x = static_cast<i128>(a);
        auto y = static_cast<i128>(b);
        x = x < 0 ? -x : x;
        y = y < 0 ? -y : y;
        while (y != 0) {
          auto r = x % y;
          x = y;
          y = r;
        }
        auto g = static_cast<i128>(bwsl::get_gcd(a, b));
        MC_CHECK(c, g == x || (g == -x && (static_cast<i128>(a) < 0 || static_cast<i128>(b) < 0)), "get_gcd(", s128(a), ", ", s128(b), ") is ", s128(g), " expected ", s128(x));
        auto g2 = static_cast<i128>(bwsl::get_gcd(b, a));
        MC_CHECK(c, g2 == g || g2 == -g, "get_gcd(", s128(b), ", ", s128(a), ") is ", s128(g2), " expected ", s128(x));
      }
      ++c.ops;
    }
    c.state(mc::H().add(static_cast<uint64_t>(v[i])).add(sizeof(T)).add(std::is_signed_v<T>).add(7));
  }
}
MC_FAMILY(pairs, "differences and common divisors of all pairs of 8 bit numbers and of the boundaries of the other types", 2)
{
  switch (c.choose(9)) {
    case 0: binary<unsigned>(c); break;
    case 1: binary<unsigned long>(c); break;
    case 2: binary<unsigned char>(c); break;
    case 3: binary<unsigned short>(c); break;
    case 4: binary<int>(c); break;
    case 5: binary<long>(c); break;
    case 6: binary<signed char>(c); break;
    case 7: binary<short>(c); break;
    default: binary<unsigned long long>(c); break;
  }
}

MC_FAMILY(divisors, "common divisors of all pairs up to some hundreds, from their definition; Fibonacci numbers", 2)
{
  int top = mc::bound(400, 150, 1500, 300);
  auto a = c.choose(top + 1);
  for (int b = 0; b <= top; ++b) {
    auto g = bwsl::get_gcd(a, b);
    auto h = bwsl::get_gcd(static_cast<unsigned long>(a), static_cast<unsigned long>(b));
    ++c.ops;
    if (a == 0 && b == 0) {
      MC_CHECK(c, g == 0, "get_gcd(0, 0) is ", g);
      continue;
    }
    MC_CHECK(c, g > 0 && a % g == 0 && b % g == 0, "get_gcd(", a, ", ", b, ") is ", g);
    MC_CHECK(c, h == static_cast<unsigned long>(g), "get_gcd(", a, ", ", b, ") is ", h, " unsigned");
    for (int d = g + 1; d <= (b == 0 ? a : a == 0 ? b : std::min(a, b)); ++d) {
      MC_CHECK(c, a % d != 0 || b % d != 0, "get_gcd(", a, ", ", b, ") is ", g, " but ", d, " divides both");
    }
  }
  c.state(mc::H().add(a));
  if (a == 0) {
    unsigned long p = 0;
    unsigned long q = 1;
    for (int i = 0; i < 92; ++i) {
      MC_CHECK(c, bwsl::get_gcd(p, q) == 1 && bwsl::get_gcd(static_cast<long>(q), static_cast<long>(p)) == 1, "Fibonacci ", p, " ", q);
      std::tie(p, q) = std::make_pair(q, p + q);
    }
  }
}

template<class T>
static void
binomial(mc::Ctx& c, int n, int k, std::vector<std::vector<i128>> const& p)
{
  auto want = k > n ? 0.0 : static_cast<double>(p[static_cast<size_t>(n)][static_cast<size_t>(k)]);
  auto got = bwsl::cbinomial<T>(static_cast<T>(n), static_cast<T>(k));
  MC_CHECK(c, got == want, "cbinomial(", n, ", ", k, ") is ", got, " expected ", want, " with arguments of ", sizeof(T), " bytes");
  if (k <= n) {
    auto sym = bwsl::cbinomial<T>(static_cast<T>(n), static_cast<T>(n - k));
    MC_CHECK(c, sym == want, "cbinomial(", n, ", ", n - k, ") is ", sym, " expected ", want);
  }
  if (std::is_signed<T>::value) {
    auto none = bwsl::cbinomial<T>(static_cast<T>(n), static_cast<T>(-k - 1));
    MC_CHECK(c, none == 0, "cbinomial(", n, ", ", -k - 1, ") is ", none, " expected 0 with arguments of ", sizeof(T), " bytes");
  }
}
MC_FAMILY(binomials, "all binomial coefficients of n up to 61 and k from -127 to 126, for every integer type, against Pascal's triangle; few out of many", 2)
{
  static std::vector<std::vector<i128>> const p = [] {
    std::vector<std::vector<i128>> p(62);
    for (size_t n = 0; n < 62; ++n) {
      p[n].assign(n + 1, 1);
      for (size_t k = 1; k < n; ++k) {
        p[n][k] = p[n - 1][k - 1] + p[n - 1][k];
      }
    }
    return p;
  }();
  auto n = c.choose(62);
  auto k = c.choose(127);
  c.op("cbinomial(", n, ", ", k, ")");
  binomial<long>(c, n, k, p);
  binomial<int>(c, n, k, p);
  binomial<unsigned>(c, n, k, p);
  binomial<unsigned long>(c, n, k, p);
  binomial<short>(c, n, k, p);
  binomial<unsigned short>(c, n, k, p);
  binomial<signed char>(c, n, k, p);
  binomial<unsigned char>(c, n, k, p);
  binomial<long long>(c, n, k, p);
  c.state(mc::H().add(n).add(k));
  // few out of many
  long const big = (n + 1) * 16000L + k;
  if (k <= 3) {
    i128 w = 1;
    for (int i = 1; i <= k; ++i) {
      w = w * (big + 1 - i) / i;
    }
    auto got = bwsl::cbinomial<long>(big, k);
    MC_CHECK(c, got == static_cast<double>(w), "cbinomial(", big, ", ", k, ") is ", got);
    auto sym = bwsl::cbinomial<long>(big, big - k);
    MC_CHECK(c, sym == static_cast<double>(w), "cbinomial(", big, ", ", big - k, ") is ", sym);
  }
  MC_CHECK(c, bwsl::cbinomial<long>(n, n + 1 + big) == 0, "more than all");
  MC_CHECK(c, bwsl::cbinomial<long>(n, std::numeric_limits<long>::min() + k) == 0 && bwsl::cbinomial<long>(n, std::numeric_limits<long>::max() - k) == 0, "far out of range");
}

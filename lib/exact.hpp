// Exact sums of doubles (fixed point over the whole range) and error-free
// products of doubles as sums, for the reference models of the accumulators.
#pragma once
#include <array>
#include <cmath>
#include <cstdint>
#include <cstring>

using quad = __float128;

/// Exact accumulator: an integer multiple of 2^-1160, limbs of 32 bits, signed
class Exact
{
  static constexpr int kBias = 1160;
  static constexpr int kLimbs = 76;
  std::array<int64_t, kLimbs> l_{};
  int pending_ = 0;

  void normalize()
  {
    int64_t carry = 0;
    for (int i = 0; i < kLimbs - 1; ++i) {
      auto v = l_[i] + carry;
      carry = v >> 32;
      l_[i] = v & 0xffffffffLL;
    }
    l_[kLimbs - 1] += carry;
    pending_ = 0;
  }

public:
  void add(double x) { add(x, 1); }
  void add(double x, int sign)
  {
    if (x == 0) {
      return;
    }
    int e = 0;
    auto m = std::frexp(x, &e); // x = m 2^e
    auto i = static_cast<int64_t>(std::ldexp(m, 53));
    auto shift = e - 53 + kBias;
    if (shift < 0) {
      i >>= -shift; // below 2^-1160: cannot happen with doubles
      shift = 0;
    }
    auto neg = (i < 0) != (sign < 0);
    auto u = static_cast<unsigned __int128>(i < 0 ? -i : i) << (shift % 32);
    int k = shift / 32;
    while (u != 0) {
      auto part = static_cast<int64_t>(static_cast<uint64_t>(u) & 0xffffffffULL);
      l_[k++] += neg ? -part : part;
      u >>= 32;
    }
    if (++pending_ > 1 << 28) {
      normalize();
    }
  }
  quad value() const
  {
    auto c = *this;
    c.normalize();
    bool neg = c.l_[kLimbs - 1] < 0;
    if (neg) {
      for (auto& x : c.l_) {
        x = -x;
      }
      c.normalize();
    }
    quad r = 0;
    for (int i = kLimbs - 1; i >= 0; --i) {
      if (c.l_[i] != 0) {
        quad v = c.l_[i];
        int e = 32 * i - kBias;
        // scale in steps that stay representable
        while (e > 1000) {
          v *= std::ldexp(1.0, 1000);
          e -= 1000;
        }
        while (e < -1000) {
          v *= std::ldexp(1.0, -1000);
          e += 1000;
        }
        r += v * static_cast<quad>(std::ldexp(1.0, e));
      }
    }
    return neg ? -r : r;
  }
};

inline quad
qabs(quad x)
{
  return x < 0 ? -x : x;
}
inline quad
qsqrt(quad x)
{
  if (!(x > 0)) {
    return 0;
  }
  quad r = std::sqrt(static_cast<long double>(x));
  for (int i = 0; i < 3; ++i) {
    r = (r + x / r) / 2;
  }
  return r;
}

#include "accs.hpp"
#include <bwsl/Accumulators.hpp>
#include <bwsl/accumulators/NaiveIntegerAccumulator.hpp>
#include <deque>
#include <list>
using namespace accs;
using bwsl::NaiveInteger;
using bwsl::accumulators::KnuthWelfordAccumulator;
using bwsl::accumulators::WestAccumulator;

static quad const U = static_cast<quad>(u);

/// Weighted moments, by definition, from all the measurements
struct Model
{
  std::vector<double> x, w;
  double big = 0;
  void add(double m, double weight = 1)
  {
    x.push_back(m);
    w.push_back(weight);
    big = std::max(big, std::fabs(m));
  }
  quad W() const
  {
    quad s = 0;
    for (auto v : w) {
      s += v;
    }
    return s;
  }
  quad W2() const
  {
    quad s = 0;
    for (auto v : w) {
      s += static_cast<quad>(v) * v;
    }
    return s;
  }
  quad S() const
  {
    quad s = 0;
    for (size_t i = 0; i < x.size(); ++i) {
      s += static_cast<quad>(x[i]) * w[i];
    }
    return s;
  }
  quad M2() const
  {
    auto mean = S() / W();
    quad s = 0;
    for (size_t i = 0; i < x.size(); ++i) {
      s += (x[i] - mean) * (x[i] - mean) * w[i];
    }
    return s;
  }
  /// what rounding may do to M2
  quad tol2(quad m2) const
  {
    auto n = static_cast<quad>(x.size() + 1);
    auto W_ = W();
    return 8 * n * U * (m2 + big * qsqrt(W_ * m2)) + 8 * n * n * U * U * big * big * W_ + static_cast<quad>(1e-300);
  }
};

/// got should be m2 / div, where rounding may change m2 by tol
static void
near(mc::Ctx& c, double got, quad m2, quad div, quad tol, char const* what, Model const& m)
{
  auto want = m2 / div;
  auto lim = tol / qabs(div) + 8 * U * qabs(want);
  MC_CHECK(c, qabs(static_cast<quad>(got) - want) <= lim, what, " of ", m.x.size(), " measurements is ", got, " expected ", static_cast<double>(want), " +- ", static_cast<double>(lim));
}
/// the same for a square root
static void
near_root(mc::Ctx& c, double got, quad m2, quad div, quad tol, char const* what, Model const& m)
{
  MC_CHECK(c, !std::isnan(got) || m2 <= tol, what, " of ", m.x.size(), " measurements is not a number");
  if (!std::isnan(got)) {
    auto g = static_cast<quad>(got);
    auto lim = tol / qabs(div) + 32 * U * m2 / div;
    MC_CHECK(c, qabs(g * g - m2 / div) <= lim, what, " of ", m.x.size(), " measurements is ", got, ", its square should be ", static_cast<double>(m2 / div), " +- ", static_cast<double>(lim));
  }
}

static void
check(mc::Ctx& c, KnuthWelfordAccumulator const& a, Model const& m)
{
  auto n = m.x.size();
  MC_CHECK(c, a.Count() == n, "count ", a.Count(), " of ", n);
  if (n < 2) {
    for (bool b : { false, true }) {
      MC_CHECK(c, std::isnan(a.Variance(b)) && std::isnan(a.StandardDeviation(b)) && std::isnan(a.Error(b)), "variance of ", n, " measurements");
    }
    MC_CHECK(c, std::isnan(a.ScaledVariance()), "scaled variance of ", n, " measurements");
  }
  if (n == 0) {
    MC_CHECK(c, a.Sum() == 0, "sum of nothing is ", a.Sum());
    return;
  }
  auto q = static_cast<quad>(n);
  near(c, a.Mean(), m.S(), q, 4 * q * q * U * m.big, "mean", m);
  near(c, a.Sum(), m.S(), 1, 4 * q * q * U * m.big, "sum", m);
  if (n < 2) {
    return;
  }
  auto m2 = m.M2();
  auto tol = m.tol2(m2);
  near(c, a.ScaledVariance(), m2, 1, tol, "scaled variance", m);
  near(c, a.Variance(false), m2, q, tol, "biased variance", m);
  near(c, a.Variance(true), m2, q - 1, tol, "corrected variance", m);
  near_root(c, a.StandardDeviation(false), m2, q, tol, "biased standard deviation", m);
  near_root(c, a.StandardDeviation(true), m2, q - 1, tol, "corrected standard deviation", m);
  near_root(c, a.Error(false), m2, q * q, tol, "biased error", m);
  near_root(c, a.Error(true), m2, (q - 1) * q, tol, "corrected error", m);
}

static void
check(mc::Ctx& c, WestAccumulator const& a, Model const& m)
{
  auto n = m.x.size();
  MC_CHECK(c, a.Count() == n, "West count ", a.Count(), " of ", n);
  if (n < 2) {
    MC_CHECK(c, std::isnan(a.PopulationVariance()) && std::isnan(a.SampleFrequencyVariance()) && std::isnan(a.SampleReliabilityVariance()), "variance of ", n, " measurements");
  }
  if (n == 0) {
    MC_CHECK(c, a.Sum() == 0, "sum of nothing is ", a.Sum());
    return;
  }
  auto q = static_cast<quad>(n);
  auto W = m.W();
  near(c, a.Mean(), m.S(), W, 4 * q * U * m.big * W, "weighted mean", m);
  near(c, a.Sum(), m.S(), 1, 6 * q * U * m.big * W, "weighted sum", m);
  if (n < 2) {
    return;
  }
  auto m2 = m.M2();
  auto spread = *std::max_element(m.x.begin(), m.x.end()) - *std::min_element(m.x.begin(), m.x.end());
  auto tol = m.tol2(m2) + 8 * q * U * m.big * W * spread;
  near(c, a.PopulationVariance(), m2, W, tol + 4 * q * U * m2, "population variance", m);
  // (the divisions are only compared where they are well conditioned)
  if (qabs(W - 1) > static_cast<quad>(1e-6) * W) {
    auto cond = W / qabs(W - 1);
    near(c, a.SampleFrequencyVariance(), m2, W - 1, tol + 4 * q * U * m2 * (1 + cond), "frequency variance", m);
  }
  auto r = W - m.W2() / W;
  if (r > static_cast<quad>(1e-6) * W) {
    near(c, a.SampleReliabilityVariance(), m2, r, tol + 8 * q * U * m2 * (1 + W / r), "reliability variance", m);
  }
}

static std::vector<double> const&
alphabet(int k)
{
  static std::vector<std::vector<double>> const a{
    { 0.1, -1.0 / 3, 7.5, 100.0, -2.25 },
    { 1e8 + 1, 1e8 + 2, 1e8 - 0.5, 1e8 + 4.25 },
    { -1e12 + 1, -1e12, -1e12 - 3, -1e12 + 0.125 },
    { 1e100, -1e99, 3e100, 0.0 },
    { 1e-100, 2e-100, -1e-101 },
    { 5.0, 5.0, 1e-3 }
  };
  return a[k];
}

MC_FAMILY(welford, "all sequences over six alphabets (offsets, extreme magnitudes, equal numbers), all queries after every measurement", 3)
{
  auto const& al = alphabet(c.choose(6));
  KnuthWelfordAccumulator a;
  WestAccumulator b;
  Model m;
  int const depth = mc::bound(6, 5, 8, 6);
  mc::H h;
  check(c, a, m);
  for (int i = 0; i < depth; ++i) {
    auto x = c.pick(al);
    a.Add(x);
    b.Add(x, 1.0);
    m.add(x);
    c.op("Add ", x, " -> mean ", a.Mean(), " m2 ", a.ScaledVariance());
    check(c, a, m);
    check(c, b, m); // unit weights
    h.add(x);
    if (i < 5) {
      c.state(h);
    }
  }
}

MC_FAMILY(west, "all sequences of weighted measurements (tiny, unit, large, zero, negative and undefined weights)", 3)
{
  static double const w[] = { 1.0, 0.25, 3.0, 1e6, 1e-6, 0.0, -1.0, -0.0 };
  static std::vector<std::vector<double>> const al{ { 0.1, -3.0, 7.5 }, { 1e8 + 1, 1e8 - 2 }, { 4.0, -1e10 } };
  auto const& v = c.pick(al);
  WestAccumulator a;
  Model m;
  int const depth = mc::bound(4, 3, 5, 4);
  mc::H h;
  check(c, a, m);
  for (int i = 0; i < depth; ++i) {
    auto k = c.choose(10);
    auto weight = k == 8 ? std::nan("") : k == 9 ? -std::numeric_limits<double>::infinity() : w[k];
    auto x = c.pick(v);
    a.Add(k >= 5 && i % 2 == 1 ? std::nan("") : x, weight);
    c.op("Add ", x, " weight ", weight);
    if (weight > 0) {
      m.add(x, weight);
    }
    check(c, a, m);
    h.add(x).add(static_cast<uint64_t>(k));
    c.state(h);
  }
}

MC_FAMILY(weight_scales, "sequences of measurements whose weights have every order of magnitude; denormal weights", 3)
{
  static std::vector<double> const v { 0.1, -3.0, 1e4 };
  static std::vector<double> const w { 1.0, 0.375, 5.0 };
  auto scale = std::ldexp(1.0, static_cast<int>(c.range(-48, 48)) * 10);
  WestAccumulator a;
  Model m;
  mc::H h;
  h.add(scale);
  for (int i = 0; i < mc::bound(4, 3, 5, 4); ++i) {
    auto x = c.pick(v);
    auto wt = c.pick(w) * scale;
    a.Add(x, wt);
    a.Add(-x, -wt);
    m.add(x, wt);
    c.op("Add ", x, " weight ", wt);
    check(c, a, m);
    h.add(x).add(wt);
    c.state(h);
  }
  // any positive weight counts
  auto n = a.Count();
  for (double wt : { std::numeric_limits<double>::denorm_min(), std::numeric_limits<double>::min(), 1e-200 * scale }) {
    a.Add(1.0, wt);
    MC_CHECK(c, wt <= 0 || a.Count() == ++n, "weight ", wt, " is ignored");
    WestAccumulator one;
    one.Add(7.0, wt);
    MC_CHECK(c, wt <= 0 || (one.Count() == 1 && one.Mean() == 7), "a single measurement of weight ", wt, " has mean ", one.Mean());
  }
}

MC_FAMILY(histories, "all histories of measurements and resets: afterwards like a new one, bit by bit", 4)
{
  static double const v[] = { 0.1, -4.0, 1e9 };
  KnuthWelfordAccumulator a;
  KnuthWelfordAccumulator a1;
  WestAccumulator b;
  WestAccumulator b1;
  NaiveInteger z;
  NaiveInteger z1;
  mc::H h;
  int const depth = mc::bound(8, 6, 10, 7);
  for (int i = 0; i < depth; ++i) {
    auto op = c.choose(4);
    h.add(static_cast<uint64_t>(op));
    if (op == 3) {
      c.op("Reset");
      a.Reset();
      b.Reset();
      z.Reset();
      a1 = KnuthWelfordAccumulator();
      b1 = WestAccumulator();
      z1 = NaiveInteger();
    } else {
      c.op("Add ", v[op]);
      a.Add(v[op]);
      a1.Add(v[op]);
      b.Add(v[op], 0.5 + op);
      b1.Add(v[op], 0.5 + op);
      z.Add(op * 1000 - 7);
      z1.Add(op * 1000 - 7);
    }
    if (i < 8) {
      c.state(h);
    }
    for (bool f : { false, true }) {
      MC_CHECK(c, same(a.Variance(f), a1.Variance(f)) && same(a.StandardDeviation(f), a1.StandardDeviation(f)) && same(a.Error(f), a1.Error(f)), "not like a new one");
      MC_CHECK(c, same(z.Variance(f), z1.Variance(f)) && same(z.StandardDeviation(f), z1.StandardDeviation(f)), "not like a new one");
    }
    MC_CHECK(c, a.Count() == a1.Count() && same(a.Sum(), a1.Sum()) && same(a.Mean(), a1.Mean()) && same(a.ScaledVariance(), a1.ScaledVariance()), "not like a new one");
    MC_CHECK(c, b.Count() == b1.Count() && same(b.Sum(), b1.Sum()) && same(b.Mean(), b1.Mean()) && same(b.PopulationVariance(), b1.PopulationVariance()), "not like a new one");
    MC_CHECK(c, same(b.SampleFrequencyVariance(), b1.SampleFrequencyVariance()) && same(b.SampleReliabilityVariance(), b1.SampleReliabilityVariance()), "not like a new one");
    MC_CHECK(c, z.Count() == z1.Count() && z.Sum() == z1.Sum() && same(z.Mean(), z1.Mean()) && same(z.ScaledVariance(), z1.ScaledVariance()), "not like a new one");
  }
}

/// Exact integer model
static void
check(mc::Ctx& c, NaiveInteger const& z, std::vector<long> const& x)
{
  auto n = x.size();
  __int128 s = 0;
  __int128 s2 = 0;
  for (auto v : x) {
    s += v;
    s2 += static_cast<__int128>(v) * v;
  }
  MC_CHECK(c, z.Count() == n, "count ", z.Count(), " of ", n);
  MC_CHECK(c, z.Sum() == static_cast<long>(s), "sum ", z.Sum(), " expected ", static_cast<long>(s));
  auto rel = [&](double got, quad want, char const* what) {
    MC_CHECK(c, qabs(static_cast<quad>(got) - want) <= 64 * U * qabs(want), what, " of ", n, " integers is ", got, " expected ", static_cast<double>(want));
  };
  if (n > 0) {
    rel(z.Mean(), static_cast<quad>(s) / static_cast<quad>(n), "mean");
  }
  if (n < 2) {
    for (bool b : { false, true }) {
      MC_CHECK(c, std::isnan(z.Variance(b)) && std::isnan(z.StandardDeviation(b)), "variance of ", n, " integers");
    }
    MC_CHECK(c, std::isnan(z.ScaledVariance()), "scaled variance of ", n, " integers");
    return;
  }
  auto q = static_cast<quad>(n);
  auto m2 = static_cast<quad>(static_cast<__int128>(n) * s2 - s * s) / q;
  rel(z.ScaledVariance(), m2, "scaled variance");
  rel(z.Variance(false), m2 / q, "biased variance");
  rel(z.Variance(true), m2 / (q - 1), "corrected variance");
  rel(z.StandardDeviation(false), qsqrt(m2 / q), "biased standard deviation");
  rel(z.StandardDeviation(true), qsqrt(m2 / (q - 1)), "corrected standard deviation");
}

MC_FAMILY(integers, "all sequences of integers around several offsets, all queries after every measurement", 3)
{
  auto o = c.pick({ 0L, 5L, -3L, 1000L, -65536L, 1L << 20, 1000000000L, -1000000000L, 1L << 31 });
  static long const v[] = { 0, 1, -2, 7, 1000 };
  NaiveInteger z;
  std::vector<long> x;
  mc::H h;
  check(c, z, x);
  int const depth = std::labs(o) >= 1L << 31 ? 1 : mc::bound(7, 5, 8, 6);
  for (int i = 0; i < depth; ++i) {
    x.push_back(o + v[c.choose(5)]);
    z.Add(x.back());
    c.op("Add ", x.back());
    check(c, z, x);
    if (i < 5) {
      c.state(h.addv(x));
    }
  }
}

MC_FAMILY(small_integers, "all long sequences over {0, 1, -1}", 4)
{
  NaiveInteger z;
  std::vector<long> x;
  int const depth = mc::bound(12, 8, 14, 10);
  for (int i = 0; i < depth; ++i) {
    x.push_back(c.choose(3) - 1);
    z.Add(x.back());
  }
  c.op(depth, " integers");
  check(c, z, x);
  mc::H h;
  c.state(h.add(static_cast<uint64_t>(z.Sum())).add(z.ScaledVariance()));
}

MC_FAMILY(periodic, "all periodic sequences of tens of thousands of measurements, checked at growing lengths", 4)
{
  static std::vector<double> const al{ 1.0, 0.5, 1e8 + 1, -3.25, 1e8 - 2, 1e-6 };
  auto len = c.range(1, 3);
  std::vector<double> w;
  for (long i = 0; i < len; ++i) {
    w.push_back(c.pick(al));
  }
  auto weighted = c.choose(3); // unit weights, weights of the word, integers
  KnuthWelfordAccumulator a;
  WestAccumulator b;
  NaiveInteger z;
  unsigned long const total = mc::bound(131073, 2000, 400000, 70000);
  static double const ww[] = { 1.0, 0.5, 2.25 };
  // moments around the first number, exactly enough in quad precision
  quad o = w[0];
  quad W = 0;
  quad W2 = 0;
  quad s = 0;
  quad q = 0;
  __int128 zs = 0;
  __int128 zq = 0;
  double big = 0;
  for (unsigned long i = 0; i < total; ++i) {
    auto x = w[i % w.size()];
    auto wt = weighted == 1 ? ww[i % 2 + i % 3 / 2] : 1.0;
    W += wt;
    W2 += static_cast<quad>(wt) * wt;
    s += wt * (x - o);
    q += wt * (x - o) * (x - o);
    big = std::max(big, std::fabs(x));
    if (weighted == 0) {
      a.Add(x);
    } else if (weighted == 1) {
      b.Add(x, wt);
    } else {
      auto k = static_cast<long>(x) % 30000 + (i % 3 == 1 ? 7 : -2);
      z.Add(k);
      zs += k;
      zq += static_cast<__int128>(k) * k;
    }
    auto p = i + 1;
    if ((p & (p - 1)) == 0 || p == 255 || p == 257 || p == 32767 || p == 65535 || p == 65537 || p == 65538 || p == 70001 || p == total) {
      auto n = static_cast<quad>(p);
      auto m2 = q - s * s / W;
      auto tol = 8 * n * U * (m2 + big * qsqrt(W * m2)) + 8 * n * n * U * U * big * big * W;
      auto mean = o + s / W;
      auto ok = [&](double got, quad want, quad lim, char const* what) {
        MC_CHECK(c, qabs(static_cast<quad>(got) - want) <= lim, what, " of ", p, " measurements is ", got, " expected ", static_cast<double>(want), " +- ", static_cast<double>(lim));
      };
      if (weighted == 0) {
        MC_CHECK(c, a.Count() == p, a.Count());
        ok(a.Mean(), mean, 4 * n * U * big, "mean");
        ok(a.Sum(), mean * n, 5 * n * n * U * big, "sum");
        if (p > 1) {
          ok(a.ScaledVariance(), m2, tol, "scaled variance");
          ok(a.Variance(true), m2 / (n - 1), tol / (n - 1) + 4 * U * m2 / n, "corrected variance");
          auto e = static_cast<quad>(a.Error(true));
          if (m2 > 100 * tol) {
            ok(static_cast<double>(e * e), m2 / (n - 1) / n, 2 * tol / (n - 1) / n + 64 * U * m2 / n / n, "squared error");
          }
        }
      } else if (weighted == 1) {
        MC_CHECK(c, b.Count() == p, b.Count());
        ok(b.Mean(), mean, 6 * n * U * big, "weighted mean");
        if (p > 1) {
          ok(b.PopulationVariance(), m2 / W, 2 * tol / W, "population variance");
          auto r = W - W2 / W;
          ok(b.SampleReliabilityVariance(), m2 / r, 2 * tol / r + 16 * n * U * m2 / r * (W / r), "reliability variance");
        }
      } else {
        MC_CHECK(c, z.Count() == p, z.Count());
        auto s1 = static_cast<quad>(static_cast<long>(zs));
        auto zm2 = (static_cast<quad>(p) * zq - zs * zs) / n; // exact up to one rounding
        auto lim = 8 * U * (zq + zs * zs / n);
        MC_CHECK(c, z.Sum() == static_cast<long>(zs), "sum of ", p, " integers is ", z.Sum());
        ok(z.Mean(), s1 / n, 4 * U * qabs(s1) / n, "integer mean");
        if (p > 1) {
          ok(z.Variance(false), zm2 / n, lim / n, "integer variance");
          ok(z.ScaledVariance(), zm2, lim, "integer scaled variance");
          ok(z.Variance(true), zm2 / (n - 1), lim / (n - 1), "corrected integer variance");
          auto sd = static_cast<quad>(z.StandardDeviation(true));
          ok(static_cast<double>(sd * sd), zm2 / (n - 1), 2 * lim / (n - 1) + 64 * U * zm2 / n, "corrected integer deviation");
        }
      }
      mc::H h;
      c.state(h.addv(w).add(static_cast<uint64_t>(weighted)).add(static_cast<uint64_t>(p)));
    }
  }
  c.op(total, " measurements");
}

MC_FAMILY(large_counts, "continuing after any large number of measurements (saved state edited)", 2)
{
  static std::vector<unsigned long> const counts{ 255UL, 65535UL, (1UL << 24), (1UL << 31) - 1, (1UL << 32) - 1, 1UL << 32, (1UL << 53) - 1, 1UL << 62 };
  auto to = c.pick(counts);
  auto x = c.pick({ 0.375, -1e10, 1e-4 });
  mc::H h;
  c.state(h.add(to).add(x));
  {
    KnuthWelfordAccumulator a;
    for (int i = 0; i < 7919; ++i) {
      a.Add(i % 2 == 0 ? 0.5 : 0.75);
    }
    if (set_count(a, 7919, to)) {
      quad mean = a.Mean();
      quad m2 = a.ScaledVariance();
      for (unsigned long i = 1; i <= 4; ++i) {
        a.Add(x);
        c.op("Add ", x, " at ", to);
        auto n = static_cast<quad>(to + i);
        auto d = x - mean;
        mean += d / n;
        m2 += d * (x - mean);
        MC_CHECK(c, a.Count() == to + i, a.Count());
        auto ok = [&](double got, quad want, char const* what) {
          MC_CHECK(c, qabs(static_cast<quad>(got) - want) <= static_cast<quad>(1e-13) * qabs(want) + static_cast<quad>(1e-15), what, " after ", to + i, " measurements is ", got, " expected ", static_cast<double>(want));
        };
        ok(a.Mean(), mean, "mean");
        ok(a.Sum() / static_cast<double>(to + i), mean, "sum / count");
        ok(a.ScaledVariance(), m2, "scaled variance");
        ok(a.Variance(false) * static_cast<double>(to + i), m2, "variance * count");
        ok(a.Variance(true) * static_cast<double>(to + i - 1), m2, "corrected variance * (count - 1)");
      }
    }
  }
  {
    WestAccumulator a;
    for (int i = 0; i < 7919; ++i) {
      a.Add(i % 2 == 0 ? 0.5 : 0.75, 0.25);
    }
    if (set_count(a, 7919, to)) {
      for (unsigned long i = 1; i <= 3; ++i) {
        a.Add(0.5, 1.0);
        MC_CHECK(c, a.Count() == to + i && !std::isnan(a.PopulationVariance()), "West ", a.Count());
      }
    }
  }
  {
    NaiveInteger a;
    for (int i = 0; i < 7919; ++i) {
      a.Add(i % 2 == 0 ? 1 : 2);
    }
    if (set_count(a, 7919, to)) {
      auto s = a.Sum();
      for (unsigned long i = 1; i <= 3; ++i) {
        a.Add(5);
        MC_CHECK(c, a.Count() == to + i && a.Sum() == s + static_cast<long>(5 * i), "integer ", a.Count(), " ", a.Sum());
        auto mean = static_cast<double>(a.Sum()) / static_cast<double>(to + i);
        MC_CHECK(c, std::fabs(a.Mean() - mean) <= 1e-15 * mean, "integer mean ", a.Mean());
      }
    }
  }
}

MC_FAMILY(really_large, "more than 2^32 measurements, one by one (thorough only)", 1)
{
  auto which = c.choose(3);
  c.assume(mc::thorough && !mc::san);
  unsigned long const total = (1UL << 32) + 5;
  KnuthWelfordAccumulator a;
  WestAccumulator b;
  NaiveInteger z;
  for (unsigned long i = 0; i < total; ++i) {
    if (which == 0) {
      a.Add(static_cast<double>(i & 1));
    } else if (which == 1) {
      b.Add(static_cast<double>(i & 1), 0.5);
    } else {
      z.Add(static_cast<long>(i & 1));
    }
    if ((i & 0xfffffff) == 0) {
      c.me->checks.fetch_add(1);
    }
  }
  c.op(total, " measurements");
  if (which == 0) {
    MC_CHECK(c, a.Count() == total, a.Count());
    MC_CHECK(c, std::fabs(a.Mean() - 0.5) < 1e-6 && std::fabs(a.Variance(true) - 0.25) < 1e-6, a.Mean(), " ", a.Variance(true));
  } else if (which == 1) {
    MC_CHECK(c, b.Count() == total, b.Count());
    MC_CHECK(c, std::fabs(b.Mean() - 0.5) < 1e-6 && std::fabs(b.PopulationVariance() - 0.25) < 1e-6, b.Mean());
  } else {
    MC_CHECK(c, z.Count() == total && z.Sum() == static_cast<long>(total / 2), z.Count(), " ", z.Sum());
    MC_CHECK(c, std::fabs(z.Variance(true) - 0.25) < 1e-6, z.Variance(true));
  }
  c.state(static_cast<uint64_t>(which));
}

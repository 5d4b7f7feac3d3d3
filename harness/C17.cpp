// mc-flags: -DBWSL_ACCUMULATORS_CHECKS
// mc-unit: C17_plain.cpp -Dbwsl=bwsl_plain
#include "C17_plain.hpp"
#include "accs.hpp"
#include <bwsl/Accumulators.hpp>
#include <bwsl/accumulators/NaiveIntegerAccumulator.hpp>
using namespace accs;
using bwsl::NaiveInteger;
using bwsl::accumulators::KahanAccumulator;
using bwsl::accumulators::KnuthWelfordAccumulator;
using bwsl::accumulators::NeumaierAccumulator;
using bwsl::accumulators::WestAccumulator;
using Overflow = bwsl::exception::AccumulatorOverflow;

constexpr auto kMax = std::numeric_limits<long>::max();
constexpr auto kMin = std::numeric_limits<long>::min();
constexpr auto kCount = std::numeric_limits<unsigned long>::max();

template<class F>
static bool
throws(mc::Ctx& c, F&& f)
{
  try {
    f();
  } catch (Overflow const& e) {
    std::exception const& b = e;
    MC_CHECK(c, b.what() != nullptr && *b.what() != 0, "no message");
    return true;
  }
  return false;
}

static std::vector<double>
answers(KahanAccumulator const& a)
{
  return { a.Sum(), a.Mean() };
}
static std::vector<double>
answers(NeumaierAccumulator const& a)
{
  return { a.Sum(), a.Mean() };
}
static std::vector<double>
answers(KnuthWelfordAccumulator const& a)
{
  return { a.Sum(), a.Mean(), a.Variance(true), a.Variance(false), a.ScaledVariance(), a.StandardDeviation(true), a.StandardDeviation(false), a.Error(true), a.Error(false) };
}
static std::vector<double>
answers(WestAccumulator const& a)
{
  return { a.Sum(), a.Mean(), a.PopulationVariance(), a.SampleFrequencyVariance(), a.SampleReliabilityVariance() };
}
static std::vector<double>
answers(NaiveInteger const& a)
{
  return { static_cast<double>(a.Sum()), a.Mean() };
}

static bool
equal(std::vector<double> const& a, std::vector<double> const& b)
{
  for (size_t i = 0; i < a.size(); ++i) {
    if (!same(a[i], b[i])) {
      return false;
    }
  }
  return a.size() == b.size();
}

static void
add(KahanAccumulator& a, double x, double)
{
  a.Add(x);
}
static void
add(NeumaierAccumulator& a, double x, double)
{
  a.Add(x);
}
static void
add(KnuthWelfordAccumulator& a, double x, double)
{
  a.Add(x);
}
static void
add(WestAccumulator& a, double x, double w)
{
  a.Add(x, w);
}
static void
add(NaiveInteger& a, double x, double)
{
  a.Add(static_cast<long>(x));
}

template<class A>
static void
at_the_limit(mc::Ctx& c, char const* name, bool weighted)
{
  A a;
  for (int i = 0; i < 7919; ++i) {
    add(a, i % 3 == 0 ? 1.0 : 2.0, 0.5);
  }
  auto left = c.pick({ 0UL, 1UL, 2UL, 3UL });
  if (!set_count(a, 7919, kCount - left)) {
    c.note("state not editable");
    c.state(1);
    return;
  }
  auto n = kCount - left;
  int const depth = mc::bound(6, 5, 8, 6);
  mc::H h;
  h.add(std::string(name)).add(left);
  for (int i = 0; i < depth; ++i) {
    auto k = c.choose(weighted ? 5 : 4);
    h.add(static_cast<uint64_t>(k));
    c.state(h);
    if (k == 3) {
      a.Reset();
      c.op("Reset");
      n = 0;
      MC_CHECK(c, a.Count() == 0, name, " reset");
      continue;
    }
    static double const x[] = { 1.0, -3.0, 0.0, 0.0, 5.0 };
    auto w = k == 4 ? -1.0 : 1.5;
    auto before = answers(a);
    auto text = save(a);
    auto thrown = throws(c, [&] { add(a, x[k], w); });
    c.op(name, " Add ", x[k], " at count ", n, (thrown ? " overflow" : ""));
    if (k == 4) {
      MC_CHECK(c, a.Count() == n && equal(before, answers(a)), name, " an ignored measurement changed the accumulator");
    } else if (n == kCount) {
      MC_CHECK(c, thrown, name, " the overflow of the count is not reported");
      MC_CHECK(c, a.Count() == n && equal(before, answers(a)) && save(a) == text, name, " is changed by the overflow");
    } else {
      MC_CHECK(c, !thrown, name, " overflow reported at count ", n);
      ++n;
      MC_CHECK(c, a.Count() == n, name, " counts ", a.Count());
    }
  }
}

MC_FAMILY(limit, "all histories of measurements and resets around the largest count, for every accumulator", 3)
{
  switch (c.choose(5)) {
    case 0: return at_the_limit<KahanAccumulator>(c, "Kahan", false);
    case 1: return at_the_limit<NeumaierAccumulator>(c, "Neumaier", false);
    case 2: return at_the_limit<KnuthWelfordAccumulator>(c, "KnuthWelford", false);
    case 3: return at_the_limit<WestAccumulator>(c, "West", true);
    default: return at_the_limit<NaiveInteger>(c, "NaiveInteger", false);
  }
}

/// One checked addition of an integer; the model is exact
struct IntModel
{
  __int128 s = 0, s2 = 0;
  unsigned long n = 0;
  bool fits(long x) const
  {
    auto t = s + x;
    auto t2 = s2 + static_cast<__int128>(x) * x;
    return t >= kMin && t <= kMax && t2 <= kMax && n < kCount;
  }
  void add(long x)
  {
    s += x;
    s2 += static_cast<__int128>(x) * x;
    ++n;
  }
};

static void
integer_step(mc::Ctx& c, NaiveInteger& z, IntModel& m, long x)
{
  auto before = answers(z);
  auto text = save(z);
  auto var = z.ScaledVariance();
  auto thrown = throws(c, [&] { z.Add(x); });
  c.op("Add ", x, (thrown ? " overflow" : ""));
  MC_CHECK(c, thrown == !m.fits(x), "adding ", x, " to sum ", static_cast<long>(m.s), " sum of squares ", static_cast<long>(m.s2), (thrown ? " is refused" : " is accepted"));
  if (thrown) {
    MC_CHECK(c, equal(before, answers(z)) && save(z) == text && same(var, z.ScaledVariance()), "the overflow changed the accumulator");
  } else {
    m.add(x);
  }
  MC_CHECK(c, z.Count() == m.n && z.Sum() == static_cast<long>(m.s), z.Count(), " ", z.Sum());
}

static std::vector<long> const&
edge_integers()
{
  static std::vector<long> const v = [] {
    std::vector<long> r{ 0, 1, -1, kMax, kMin, kMin + 1, kMax - 1, kMax / 2, kMax / 2 + 1, -(kMax / 2) - 1 };
    // squares around the largest number and its fractions
    for (long k : { 1L, 2L, 3L, 4L }) {
      auto q = static_cast<long>(std::sqrt(static_cast<long double>(kMax) / k));
      for (long d : { -1L, 0L, 1L }) {
        r.push_back(q + d);
        r.push_back(-(q + d));
      }
    }
    r.push_back(1L << 32);
    r.push_back(-(1L << 32));
    r.push_back(1L << 31);
    return r;
  }();
  return v;
}

MC_FAMILY(integers, "all sequences of extreme integers (sums and squares around the largest number)", 2)
{
  NaiveInteger z;
  IntModel m;
  mc::H h;
  int const depth = mc::bound(4, 3, 5, 3);
  for (int i = 0; i < depth; ++i) {
    auto x = c.pick(edge_integers());
    integer_step(c, z, m, x);
    h.add(static_cast<uint64_t>(m.s)).add(static_cast<uint64_t>(m.s2));
    if (i < 3) {
      c.state(h);
    }
  }
}

// the last representable sum of squares, reached by different ways
MC_FAMILY(squares, "filling up the sum of squares to the last unit", 2)
{
  NaiveInteger z;
  IntModel m;
  auto first = c.pick({ 3037000499L, -3037000499L, 3037000000L, 2147483648L, -1L });
  integer_step(c, z, m, first);
  mc::H h;
  // greedily, then the explorer decides the last ones
  for (int i = 0; i < 40; ++i) {
    auto left = static_cast<long>(kMax - m.s2);
    auto q = static_cast<long>(std::sqrt(static_cast<long double>(left)));
    while (static_cast<__int128>(q) * q > left) {
      --q;
    }
    if (q == 0) {
      break;
    }
    integer_step(c, z, m, q + 1);    // too large by one
    integer_step(c, z, m, -(q + 1)); // too large by one
    if (q < 50 && i > 3) {
      break;
    }
    integer_step(c, z, m, i % 2 == 0 ? q : -q);
  }
  for (int i = 0; i < mc::bound(5, 3, 6, 4); ++i) {
    integer_step(c, z, m, c.pick({ 0L, 1L, -1L, 2L, -5L, 9L, 30L }));
    c.state(h.add(static_cast<uint64_t>(m.s2)).add(static_cast<uint64_t>(m.s)));
  }
}

// sums can only come close to the largest number after very many additions:
// continue from such a state
MC_FAMILY(sums, "all sequences of integers from states with sums and squares close to the limits (saved state edited)", 3)
{
  static std::vector<long> const sums{ kMax, kMax - 1, kMax - 2, kMin, kMin + 1, kMin + 2, 0, kMax - 3000000000L };
  static std::vector<long> const squares{ 0, 1, kMax, kMax - 1, kMax - 4, kMax - 10 };
  auto s = c.pick(sums);
  auto s2 = c.pick(squares);
  NaiveInteger z;
  // sum 104, squares 5410, count 4
  for (long x : { 13L, 30L, 60L, 1L }) {
    z.Add(x);
  }
  IntModel m;
  m.n = 4;
  m.s = s;
  m.s2 = s2;
  if (!set_token(z, "104", std::to_string(s), "sum") || (s != 4670 && !set_token(z, "4670", std::to_string(s2), "sum of squares"))) {
    c.note("state not editable");
    c.state(1);
    return;
  }
  MC_CHECK(c, z.Sum() == s && z.Count() == 4, "restored ", z.Sum());
  mc::H h;
  h.add(static_cast<uint64_t>(s)).add(static_cast<uint64_t>(s2));
  for (int i = 0; i < mc::bound(4, 3, 5, 4); ++i) {
    auto x = c.pick({ 0L, 1L, -1L, 2L, -2L, 3L, kMax, kMin, 3037000499L, -3037000500L });
    integer_step(c, z, m, x);
    if (i < 3) {
      c.state(h.add(static_cast<uint64_t>(x)));
    }
  }
}

MC_FAMILY(same_effect, "all histories have the same effect, bit by bit, as without the checks", 3)
{
  static double const v[] = { 0.1, -1e16, 1e16, 7.0, 1e-9 };
  static long const iv[] = { 3, -1000000007, 0, 2000000000, -1 };
  static double const wv[] = { 1.0, 0.25, -1.0, 0.0, 1e9 };
  Plain p;
  KahanAccumulator k;
  NeumaierAccumulator n;
  KnuthWelfordAccumulator w;
  WestAccumulator t;
  NaiveInteger z;
  mc::H h;
  int const depth = mc::bound(7, 5, 8, 6);
  IntModel m;
  for (int i = 0; i < depth; ++i) {
    auto op = c.choose(6);
    h.add(static_cast<uint64_t>(op));
    if (i < 6) {
      c.state(h);
    }
    if (op == 5) {
      k.Reset();
      n.Reset();
      w.Reset();
      t.Reset();
      z.Reset();
      p.reset();
      m = IntModel();
      c.op("Reset");
    } else {
      auto iop = iv[op];
      if (!m.fits(iop)) {
        iop = 1;
      }
      m.add(iop);
      auto thrown = throws(c, [&] {
        k.Add(v[op]);
        n.Add(v[op]);
        w.Add(v[op]);
        t.Add(v[op], wv[(op + i) % 5]);
        z.Add(iop);
      });
      MC_CHECK(c, !thrown, "overflow reported for ", v[op]);
      p.add(v[op], wv[(op + i) % 5], iop);
      c.op("Add ", v[op]);
    }
    std::vector<double> mine QUERIES(k, n, w, t, z);
    auto plain = p.answers();
    for (size_t q = 0; q < mine.size(); ++q) {
      MC_CHECK(c, same(mine[q], plain[q]), "query ", q, " is ", mine[q], " with and ", plain[q], " without the checks");
    }
  }
}

MC_FAMILY(ranges, "apply_accumulator reports the overflow and keeps what was added before", 2)
{
  KahanAccumulator a;
  for (int i = 0; i < 7919; ++i) {
    a.Add(1);
  }
  auto left = static_cast<unsigned long>(c.range(0, 4));
  auto n = static_cast<unsigned long>(c.range(0, 6));
  c.state(left * 10 + n);
  if (!set_count(a, 7919, kCount - left)) {
    return;
  }
  std::vector<double> v(n, 2.0);
  auto thrown = throws(c, [&] { bwsl::apply_accumulator(v.begin(), v.end(), a); });
  c.op("apply_accumulator");
  MC_CHECK(c, thrown == (n > left), "left ", left, " added ", n);
  MC_CHECK(c, a.Count() == kCount - left + std::min(n, left), a.Count());
}

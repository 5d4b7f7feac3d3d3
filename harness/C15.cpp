#include "accs.hpp"
#include <bwsl/Accumulators.hpp>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <sstream>
using namespace accs;
using bwsl::accumulators::KahanAccumulator;
using bwsl::accumulators::NeumaierAccumulator;

/// Exact model of both sums
struct Model
{
  Exact sum;
  Exact abs;
  Exact errors; // roundings of the plain running sum
  double plain = 0;
  unsigned long n = 0;
  void add(double x)
  {
    sum.add(x);
    abs.add(std::fabs(x));
    auto t = plain + x;
    auto b = t - plain;
    auto e = (plain - (t - b)) + (x - b);
    errors.add(std::fabs(e));
    plain = t;
    ++n;
  }
};

static quad const U = static_cast<quad>(u);

static quad
kahan_bound(Model const& m)
{
  auto n = static_cast<quad>(m.n);
  return (2 * U + (4 * n + 16) * U * U) * m.abs.value() * static_cast<quad>(1.01);
}
static quad
neumaier_bound(Model const& m)
{
  auto n = static_cast<quad>(m.n);
  return static_cast<quad>(1.001) * U * qabs(m.sum.value()) + static_cast<quad>(1.01) * n * U * m.errors.value();
}

static double
d(quad x)
{
  return static_cast<double>(x);
}

template<class A>
static void
check(mc::Ctx& c, A const& a, Model const& m, quad bound, char const* name)
{
  auto s = m.sum.value();
  auto got = a.Sum();
  auto err = qabs(static_cast<quad>(got) - s);
  MC_CHECK(c, err <= bound, name, " sum of ", m.n, " numbers is ", got, ", exact ", d(s), ", off by ", d(err), ", allowed ", d(bound));
  MC_CHECK(c, a.Count() == m.n, name, " counts ", a.Count(), " of ", m.n);
  if (m.n > 0) {
    auto mean = a.Mean();
    auto want = got / static_cast<double>(m.n);
    MC_CHECK(c, std::fabs(mean - want) <= 4 * u * std::fabs(want) + 1e-320, name, " mean ", mean, " expected ", want);
  }
}

static std::vector<double> const&
alphabet(int k)
{
  static std::vector<std::vector<double>> const a{
    { 0.1, 1.0, -1.0 / 3, 1e16, -1e16, 1e-9, 9007199254740993.0 },
    { 1e100, 1.0, -1e100, 1e-100, 3.5, -1e50 },
    { 1e300, -1e300, 1e284, 4.9e-324, -2.2e-308, 0.7 },
    { 0.0, -0.0, 0.1, 0.2, 0.3, -0.6 },
    { 1.0, 1.1102230246251565e-16, -1.1102230246251568e-16, 5.6e-17, 2.0 }
  };
  return a[k];
}

MC_FAMILY(sequences, "all sequences over five alphabets (cancellation, extreme magnitudes, subnormals, ties), checked after every addition", 3)
{
  auto const& al = alphabet(c.choose(5));
  KahanAccumulator k;
  NeumaierAccumulator n;
  Model m;
  int const depth = mc::bound(7, 5, 8, 6);
  mc::H h;
  for (int i = 0; i < depth; ++i) {
    auto x = c.pick(al);
    k.Add(x);
    n.Add(x);
    m.add(x);
    c.op("Add ", x, " -> Kahan ", k.Sum(), " Neumaier ", n.Sum());
    h.add(x);
    check(c, k, m, kahan_bound(m), "Kahan");
    check(c, n, m, neumaier_bound(m), "Neumaier");
    if (i < 5) {
      c.state(h);
    }
  }
}

MC_FAMILY(histories, "all histories of additions, resets and queries: after a reset like a new one", 4)
{
  static double const v[] = { 0.1, 1e16, -1e16, 3.0 };
  KahanAccumulator k;
  NeumaierAccumulator n;
  KahanAccumulator k1;
  NeumaierAccumulator n1;
  Model m;
  int const depth = mc::bound(8, 6, 9, 7);
  mc::H h;
  for (int i = 0; i < depth; ++i) {
    auto op = c.choose(5);
    h.add(static_cast<uint64_t>(op));
    if (op == 4) {
      k.Reset();
      n.Reset();
      k1 = KahanAccumulator();
      n1 = NeumaierAccumulator();
      m = Model();
      c.op("Reset");
    } else {
      k.Add(v[op]);
      n.Add(v[op]);
      k1.Add(v[op]);
      n1.Add(v[op]);
      m.add(v[op]);
      c.op("Add ", v[op]);
    }
    c.state(h);
    MC_CHECK(c, k.Sum() == k1.Sum() && k.Count() == k1.Count() && same(k.Mean(), k1.Mean()), "Kahan differs from a new one: ", k.Sum(), " ", k1.Sum());
    MC_CHECK(c, n.Sum() == n1.Sum() && n.Count() == n1.Count() && same(n.Mean(), n1.Mean()), "Neumaier differs from a new one: ", n.Sum(), " ", n1.Sum());
  }
  check(c, k, m, kahan_bound(m), "Kahan");
  check(c, n, m, neumaier_bound(m), "Neumaier");
}

MC_FAMILY(periodic, "all periodic sequences (words up to three numbers) of tens of thousands of numbers, checked at growing lengths", 4)
{
  static std::vector<double> const al{ 0.1, 1.0, 1e16, -0.7, 1e-5, 12345.678, -1e16 };
  auto len = c.range(1, 3);
  std::vector<double> w;
  for (long i = 0; i < len; ++i) {
    w.push_back(c.pick(al));
  }
  auto prefix = c.pick({ 0.0, 1e17 });
  KahanAccumulator k;
  NeumaierAccumulator n;
  Model m;
  auto add = [&](double x) {
    k.Add(x);
    n.Add(x);
    m.add(x);
  };
  if (prefix != 0) {
    add(prefix);
  }
  unsigned long const total = mc::bound(70000, 3000, 1000000, 70000);
  unsigned long next = 1;
  for (unsigned long i = 0; i < total; ++i) {
    add(w[i % w.size()]);
    auto p = m.n;
    if (p == next || p == 255 || p == 256 || p == 257 || p == 32767 || p == 32768 || p == 65535 || p == 65536 || p == 65537 || i + 1 == total) {
      check(c, k, m, kahan_bound(m), "Kahan");
      check(c, n, m, neumaier_bound(m), "Neumaier");
      next = next * 2 + (p % 2);
      mc::H h;
      c.state(h.addv(w).add(prefix).add(static_cast<uint64_t>(p)));
    }
  }
  c.op(total, " additions -> Kahan ", k.Sum(), " Neumaier ", n.Sum());
  if (prefix != 0) {
    add(-prefix);
    check(c, k, m, kahan_bound(m), "Kahan");
    check(c, n, m, neumaier_bound(m), "Neumaier");
  }
}

MC_FAMILY(hidden, "small numbers around a large one that cancels later, at every place", 3)
{
  auto big = c.pick({ 1e16, 1e20, 1e100, -1e18 });
  auto small = c.pick({ 1.0, 0.1, -3.0, 1e-3 });
  auto total = mc::bound<int>(24, 10, 48, 16);
  auto i = c.choose(total);
  auto j = c.choose(total);
  KahanAccumulator k;
  NeumaierAccumulator n;
  Model m;
  mc::H h;
  c.state(h.add(big).add(small).add(static_cast<uint64_t>(i)).add(static_cast<uint64_t>(j)));
  for (int p = 0; p < total; ++p) {
    for (double x : { p == i ? big : 0.0, small, p == j ? -big : 0.0 }) {
      if (x != 0) {
        k.Add(x);
        n.Add(x);
        m.add(x);
        c.op("Add ", x);
        check(c, k, m, kahan_bound(m), "Kahan");
        check(c, n, m, neumaier_bound(m), "Neumaier");
      }
    }
  }
}

// histories that are continued after 2^8, 2^16, 2^32, 2^53 ... measurements
MC_FAMILY(large_counts, "continuing after any large number of measurements (saved state edited): count and mean", 2)
{
  static std::vector<unsigned long> const counts{ 254UL, 255UL, 65534UL, 65535UL, (1UL << 24) - 1, 1UL << 24, (1UL << 31) - 2, (1UL << 31) - 1, (1UL << 32) - 2, (1UL << 32) - 1, 1UL << 32, (1UL << 53) - 1, 1UL << 62, ~0UL - 8 };
  auto to = c.pick(counts);
  auto x = c.pick({ 0.375, -1e10, 1e-4 });
  auto run = [&](auto a, char const* name) {
    for (int i = 0; i < 7919; ++i) {
      a.Add(0.0009765625);
    }
    if (!set_count(a, 7919, to)) {
      c.note("state not editable");
      return;
    }
    MC_CHECK(c, a.Count() == to, name, a.Count(), " after restoring ", to);
    auto before = a.Sum();
    for (unsigned long i = 1; i <= 5; ++i) {
      a.Add(x);
      c.op(name, " Add ", x, " at ", to);
      MC_CHECK(c, a.Count() == to + i, name, " counts ", a.Count(), " expected ", to + i);
      auto want = before + static_cast<double>(i) * x;
      MC_CHECK(c, std::fabs(a.Sum() - want) <= 1e-13 * (std::fabs(before) + 5 * std::fabs(x)), name, " sum ", a.Sum(), " expected ", want);
      auto mean = a.Sum() / static_cast<double>(to + i);
      MC_CHECK(c, std::fabs(a.Mean() - mean) <= 1e-14 * std::fabs(mean), name, " mean ", a.Mean(), " expected ", mean);
    }
    a.Reset();
    MC_CHECK(c, a.Count() == 0 && a.Sum() == 0, name, " reset");
  };
  run(KahanAccumulator(), "Kahan");
  run(NeumaierAccumulator(), "Neumaier");
  mc::H h;
  c.state(h.add(to).add(x));
}

MC_FAMILY(really_large, "more than 2^32 additions, one by one (thorough only)", 1)
{
  auto which = c.choose(2);
  c.assume(mc::thorough && !mc::san);
  auto run = [&](auto a, char const* name) {
    unsigned long const total = (1UL << 32) + 5;
    for (unsigned long i = 0; i < total; ++i) {
      a.Add(0.1);
      if ((i & 0xfffffff) == 0) {
        c.me->execs.fetch_add(0);
        c.me->checks.fetch_add(1);
      }
    }
    c.op(name, " ", total, " additions");
    MC_CHECK(c, a.Count() == total, name, a.Count());
    auto want = static_cast<double>(total) * 0.1;
    MC_CHECK(c, std::fabs(a.Sum() - want) <= 4 * u * want, name, " sum ", a.Sum(), " expected ", want);
  };
  if (which == 0) {
    run(KahanAccumulator(), "Kahan");
  } else {
    run(NeumaierAccumulator(), "Neumaier");
  }
  c.state(static_cast<uint64_t>(which));
}

MC_FAMILY(ranges, "apply_accumulator over every container and every subrange", 3)
{
  auto n = c.range(0, 6);
  std::vector<double> v;
  for (long i = 0; i < n; ++i) {
    v.push_back(i % 2 == 0 ? 0.1 * static_cast<double>(i + 1) : -1e15);
  }
  auto from = c.range(0, n);
  auto to = from + c.range(0, n - from);
  auto pre = c.range(0, 2);
  auto run = [&](auto acc, auto const& box) {
    auto ref = acc;
    for (long i = 0; i < pre; ++i) {
      acc.Add(2.5);
      ref.Add(2.5);
    }
    auto& r = bwsl::apply_accumulator(std::next(box.begin(), from), std::next(box.begin(), to), acc);
    c.op("apply_accumulator ", from, " ", to);
    for (long i = from; i < to; ++i) {
      ref.Add(v[i]);
    }
    MC_CHECK(c, &r == &acc, "another accumulator is returned");
    MC_CHECK(c, acc.Sum() == ref.Sum() && acc.Count() == ref.Count(), acc.Sum(), " ", ref.Sum(), " ", acc.Count(), " ", ref.Count());
  };
  std::list<double> l(v.begin(), v.end());
  std::deque<double> q(v.begin(), v.end());
  run(KahanAccumulator(), v);
  run(KahanAccumulator(), l);
  run(NeumaierAccumulator(), q);
  run(NeumaierAccumulator(), l);
  run(bwsl::accumulators::KnuthWelfordAccumulator(), v);
  run(NeumaierAccumulator(), std::forward_list<double>(v.begin(), v.end()));
  // numbers that can be read only once
  auto once = [&](auto acc) {
    auto ref = acc;
    std::ostringstream os;
    os.precision(17);
    for (long i = from; i < to; ++i) {
      os << v[i] << ' ';
      ref.Add(v[i]);
    }
    std::istringstream is(os.str());
    auto& r = bwsl::apply_accumulator(std::istream_iterator<double>(is), std::istream_iterator<double>(), acc);
    c.op("apply_accumulator to a stream of ", to - from);
    MC_CHECK(c, &r == &acc, "another accumulator is returned");
    MC_CHECK(c, acc.Sum() == ref.Sum() && acc.Count() == ref.Count(), "stream: ", acc.Sum(), " ", ref.Sum(), " ", acc.Count(), " ", ref.Count());
  };
  once(KahanAccumulator());
  once(NeumaierAccumulator());
  mc::H h;
  c.state(h.add(static_cast<uint64_t>(n)).add(static_cast<uint64_t>(from)).add(static_cast<uint64_t>(to)).add(static_cast<uint64_t>(pre)));
}

#include "accs.hpp"
#include <bwsl/HistAccumulator.hpp>
#include <deque>
using namespace accs;
using bwsl::HistAccumulator;

struct Bin
{
  quad sum = 0;
  quad mag = 0;
  unsigned long n = 0;
};
struct Model
{
  std::vector<Bin> bins;
  unsigned long count = 0;
  void add(size_t i, double x)
  {
    auto& b = bins.at(i);
    b.sum += x;
    b.mag += std::fabs(x);
    ++b.n;
    ++count;
  }
  void force(size_t i, double x)
  {
    if (i >= bins.size()) {
      bins.resize(i + 1);
    }
    add(i, x);
  }
  void resize(size_t n) { bins.resize(n); }
  void reset()
  {
    for (auto& b : bins) {
      b = Bin();
    }
    count = 0;
  }
  void hash(mc::H& h) const
  {
    h.add(bins.size()).add(count);
    for (auto const& b : bins) {
      h.add(static_cast<double>(b.sum)).add(b.n);
    }
  }
};

static quad const U = static_cast<quad>(u);

static quad
tolerance(Bin const& b)
{
  auto n = static_cast<quad>(b.n);
  return 2 * U * qabs(b.sum) + 4 * n * n * U * U * b.mag;
}

static void
check(mc::Ctx& c, HistAccumulator const& h, Model const& m)
{
  auto n = m.bins.size();
  MC_CHECK(c, h.GetNbins() == n, "bins ", h.GetNbins(), " expected ", n);
  MC_CHECK(c, h.GetCount() == m.count, "total count ", h.GetCount(), " expected ", m.count);
  auto r = h.GetResults();
  MC_CHECK(c, r.size() == n, "results ", r.size(), " for ", n, " bins");
  for (size_t i = 0; i < n; ++i) {
    auto const& b = m.bins[i];
    MC_CHECK(c, h.GetCount(i) == b.n, "count of bin ", i, " is ", h.GetCount(i), " expected ", b.n);
    auto x = h.GetResult(i);
    if (b.n == 0) {
      MC_CHECK(c, x == 0, "result ", x, " of the empty bin ", i);
      MC_CHECK(c, r[i] == 0, "result ", r[i], " of the empty bin ", i);
    } else {
      auto want = b.sum / static_cast<quad>(m.count);
      auto lim = tolerance(b) / static_cast<quad>(m.count) + 2 * U * qabs(want);
      MC_CHECK(c, qabs(static_cast<quad>(x) - want) <= lim, "result of bin ", i, " is ", x, " expected ", static_cast<double>(want));
      MC_CHECK(c, qabs(static_cast<quad>(r[i]) - want) <= lim, "results[", i, "] is ", r[i], " expected ", static_cast<double>(want));
    }
  }
  for (size_t k = 0; k < n; k += (n > 8 && k + 1 < n) ? n - 1 - k : 1) {
    auto q = h.GetResults(k);
    MC_CHECK(c, q.size() == n, "divided results ", q.size(), " for ", n, " bins");
    for (size_t i = 0; i < n; ++i) {
      auto want = r[i] / r[k];
      if (std::isnan(want)) {
        MC_CHECK(c, std::isnan(q[i]), "0/0 is ", q[i]);
      } else if (std::isinf(want)) {
        MC_CHECK(c, q[i] == want, r[i], "/0 is ", q[i]);
      } else {
        MC_CHECK(c, std::fabs(q[i] - want) <= 8 * u * std::fabs(want), "results divided by bin ", k, ": bin ", i, " is ", q[i], " expected ", want);
      }
    }
  }
}

static HistAccumulator
start(mc::Ctx& c, Model& m, int max)
{
  auto k = c.choose(max + 2);
  if (k == 0) {
    c.op("HistAccumulator()");
    return HistAccumulator();
  }
  c.op("HistAccumulator(", k - 1, ")");
  m.resize(static_cast<size_t>(k - 1));
  return HistAccumulator(static_cast<size_t>(k - 1));
}

/// one operation of the alphabet: bins 0..top, the given values
static void
step(mc::Ctx& c, HistAccumulator& h, Model& m, long top, std::vector<double> const& values)
{
  auto n = static_cast<long>(m.bins.size());
  auto v = static_cast<long>(values.size());
  // Reset, Resize 0..top, Add i v, Add i, ForceAdd i v, ForceAdd i
  auto adds = n * (v + 1);
  auto forces = (top + 1) * (v + 1);
  auto k = static_cast<long>(c.choose(static_cast<int>(1 + top + 1 + adds + forces)));
  if (k == 0) {
    c.op("Reset");
    h.Reset();
    m.reset();
    return;
  }
  k -= 1;
  if (k <= top) {
    c.op("Resize ", k);
    h.Resize(static_cast<size_t>(k));
    m.resize(static_cast<size_t>(k));
    return;
  }
  k -= top + 1;
  bool force = k >= adds;
  if (force) {
    k -= adds;
  }
  auto i = static_cast<size_t>(k / (v + 1));
  auto j = k % (v + 1);
  if (j == v) {
    c.op(force ? "ForceAdd " : "Add ", i);
    force ? h.ForceAdd(i) : h.Add(i);
    force ? m.force(i, 1) : m.add(i, 1);
  } else {
    auto x = values[static_cast<size_t>(j)];
    c.op(force ? "ForceAdd " : "Add ", i, " ", x);
    force ? h.ForceAdd(i, x) : h.Add(i, x);
    force ? m.force(i, x) : m.add(i, x);
  }
}

static void
run(mc::Ctx& c, int depth, long top, std::vector<double> const& values)
{
  Model m;
  auto h = start(c, m, static_cast<int>(top));
  check(c, h, m);
  for (int i = 0; i < depth; ++i) {
    step(c, h, m, top, values);
    check(c, h, m);
    mc::H s;
    m.hash(s);
    c.state(s);
  }
}

MC_FAMILY(histories, "all histories of Add, ForceAdd, Resize and Reset on up to three bins with two values", 3)
{
  run(c, mc::bound(4, 3, 5, 4), 2, { 0.1, -3.0 });
}

MC_FAMILY(deep, "longer histories on up to two bins with unit measurements", 4)
{
  run(c, mc::bound(6, 5, 8, 6), 1, {});
}

MC_FAMILY(wide, "short histories on up to five bins", 3)
{
  run(c, mc::bound(3, 2, 4, 3), 4, { 0.0, 2.5 });
}

MC_FAMILY(compensation, "cancelling values: nothing of the compensated sums is lost by growing and shrinking", 4)
{
  run(c, mc::bound(4, 3, 5, 4), 1, { 1e16, 1.0, -1e16, 0.3 });
}

MC_FAMILY(types, "values of any arithmetic type and growth far beyond the last bin", 4)
{
  Model m;
  auto h = start(c, m, 2);
  int depth = mc::bound(2, 2, 3, 2);
  for (int s = 0; s < depth; ++s) {
    auto i = c.pick({ 0UL, 1UL, 7UL, 130UL });
    auto t = c.choose(12);
    auto doit = [&](auto v) {
      c.op("ForceAdd ", i, " ", +v);
      h.ForceAdd(i, v);
      m.force(i, static_cast<double>(v));
      h.Add(i, v);
      m.add(i, static_cast<double>(v));
    };
    switch (t) {
      case 0: doit(7); break;
      case 1: doit(-7L); break;
      case 2: doit(7U); break;
      case 3: doit(2.5F); break;
      case 4: doit(-0.75); break;
      case 5: doit(true); break;
      case 6: doit('a'); break;
      case 7: doit(static_cast<unsigned char>(200)); break;
      case 8: doit(4000000000U); break;
      case 9: doit(1UL << 60); break;
      case 10: doit(static_cast<short>(-30000)); break;
      default: doit(1e-300); break;
    }
    check(c, h, m);
    mc::H q;
    m.hash(q);
    c.state(q);
    if (c.flip()) {
      auto n = c.pick({ 0UL, 2UL, 65UL, 150UL });
      c.op("Resize ", n);
      h.Resize(n);
      m.resize(n);
      check(c, h, m);
    }
  }
}

MC_FAMILY(long_histories, "periodic histories of tens of thousands of operations", 3)
{
  Model m;
  auto h = start(c, m, 2);
  struct O
  {
    int kind;
    size_t i;
    double x;
  };
  std::vector<O> p;
  int len = 3;
  for (int k = 0; k < len; ++k) {
    auto o = c.choose(8);
    static O const all[] = { { 0, 0, 0.1 }, { 0, 1, 1e10 }, { 0, 5, -0.3 }, { 1, 3, 0 }, { 1, 6, 0 }, { 0, 2, 1.0 }, { 2, 0, 0 }, { 0, 0, -1e10 } };
    p.push_back(all[o]);
  }
  int rounds = c.pick({ 100, mc::bound(3000, 500, 30000, 3000) });
  c.op("pattern of ", len, " operations, ", rounds, " times");
  for (int r = 0; r < rounds; ++r) {
    for (auto const& o : p) {
      if (o.kind == 0) {
        h.ForceAdd(o.i, o.x);
        m.force(o.i, o.x);
      } else if (o.kind == 1) {
        h.Resize(o.i);
        m.resize(o.i);
      } else if (r % 37 == 36) {
        h.Reset();
        m.reset();
      }
    }
    c.ops += p.size();
    if (c.me != nullptr) {
      c.me->checks.fetch_add(1);
    }
  }
  check(c, h, m);
  mc::H q;
  m.hash(q);
  c.state(q);
}

// The number of measurements of a long run, through a restored state
MC_FAMILY(large_counts, "counts around 2^31, 2^32, 2^53 and 2^63, restored from an archive, continued by a short history", 2)
{
  static unsigned long const totals[] = { 2147483647UL, 2147483648UL, 4294967290UL, 4294967295UL, 4294967296UL, 1UL << 40, (1UL << 53) - 1, 1UL << 62, (1UL << 63) + 4096 };
  auto total = totals[c.choose(9)];
  HistAccumulator h(2);
  Model m;
  m.resize(2);
  for (int i = 0; i < 997; ++i) {
    auto b = static_cast<size_t>(i % 5 == 0);
    h.Add(b, 1.0);
    m.add(b, 1.0);
  }
  if (!set_count(h, 997, total)) {
    c.op("no such state");
    c.state(mc::H().add(0));
    return;
  }
  m.count = total;
  c.op("total count ", total);
  check(c, h, m);
  for (int i = 0; i < 4; ++i) {
    auto o = c.choose(4);
    c.op("operation ", o);
    if (o == 0) {
      h.Add(0, 2.0);
      m.add(0, 2.0);
    } else if (o == 1) {
      h.ForceAdd(3);
      m.force(3, 1);
    } else if (o == 2) {
      h.Resize(1);
      m.resize(1);
    } else {
      h.Resize(4);
      m.resize(4);
    }
    check(c, h, m);
    mc::H q;
    m.hash(q);
    c.state(q);
  }
}

// GetResults(idx) must not depend on values only representable differently
MC_FAMILY(division, "results divided by each bin for all combinations of four sums per bin", 3)
{
  static double const v[] = { 0.1, -3.0, 1e-300, 1e150, 0.0 };
  auto n = static_cast<size_t>(c.range(1, 4));
  HistAccumulator h(n);
  Model m;
  m.resize(n);
  for (size_t i = 0; i < n; ++i) {
    auto k = c.choose(6);
    if (k < 5) {
      h.Add(i, v[k]);
      m.add(i, v[k]);
    }
  }
  c.op("GetResults");
  check(c, h, m);
  mc::H q;
  m.hash(q);
  c.state(q);
}

// Histograms of many bins: growing by any distance, numbers of bins around
// powers of two
MC_FAMILY(big, "growing by one measurement and by resizing to numbers of bins around powers of two up to 2^17, twice, and shrinking again", 3)
{
  Model m;
  auto h = start(c, m, 1);
  static std::vector<size_t> const sizes = [] {
    std::vector<size_t> v{ 5, 1000, 4500, 10000, 70001, 100000 };
    for (int p = 6; p <= 17; ++p) {
      for (long k : { -1, 0, 1 }) {
        v.push_back((size_t{ 1 } << p) + static_cast<size_t>(k));
      }
    }
    return v;
  }();
  mc::H q;
  for (int s = 0; s < 2; ++s) {
    auto i = c.pick(sizes);
    auto how = c.choose(s == 0 ? 2 : 3);
    if (how == 0) {
      c.op("ForceAdd ", i, " 0.1");
      h.ForceAdd(i, 0.1);
      m.force(i, 0.1);
    } else if (how == 1) {
      c.op("Resize ", i);
      h.Resize(i);
      m.resize(i);
      h.Add(i - 1, -3.0);
      m.add(i - 1, -3.0);
      h.Add(i / 2);
      m.add(i / 2, 1);
    } else {
      c.op("ForceAdd ", i);
      h.ForceAdd(i);
      m.force(i, 1);
      h.Reset();
      m.reset();
      h.Add(i / 3, 7);
      m.add(i / 3, 7);
    }
    check(c, h, m);
    q.add(i).add(how);
    c.state(q);
  }
}

#include "spaces.hpp"
#include <bwsl/LogSpace.hpp>
using spaces::Law;

/// from a to b, given by their logarithms
template<class T>
static Law
law(long double loga, long double logb, unsigned long n, std::string const& what)
{
  std::ostringstream os;
  os << "LogSpace of " << sizeof(T) << " bytes " << what << " in " << n;
  long double const u = std::max(static_cast<long double>(std::numeric_limits<T>::epsilon()), static_cast<long double>(std::numeric_limits<double>::epsilon())) / 2;
  auto value = [=](unsigned long k) { return std::exp(loga + static_cast<long double>(k) * ((logb - loga) / static_cast<long double>(n))); };
  auto L = std::fabs(loga) + std::fabs(logb) + 1;
  return { os.str(), n, value, [=](unsigned long k) {
            return value(k) * u * (8 + static_cast<long double>(k) * (6 + 6 * L / static_cast<long double>(n)) + 0.1L * L);
          } };
}

template<class T>
struct Start
{
  bwsl::LogSpace<T> s;
  Law l;
  mc::H h;
};

template<class T>
static Start<T>
direct(mc::Ctx& c, std::vector<unsigned long> const& steps)
{
  static std::vector<std::pair<double, double>> const r{ { 1, 8 }, { 0.1, 0.3 }, { 1e-3, 1e3 }, { 5, 5.000002 }, { 1e10, 1e14 }, { 1e-20, 1e-18 }, { 0.5, 1 } };
  auto i = c.choose(static_cast<int>(r.size()));
  auto n = c.pick(steps);
  auto a = static_cast<T>(r[static_cast<size_t>(i)].first);
  auto b = static_cast<T>(r[static_cast<size_t>(i)].second);
  std::ostringstream os;
  os << "from " << a << " to " << b;
  c.op("LogSpace(", a, ", ", b, ", ", n, ")");
  return { bwsl::LogSpace<T>(a, b, n), law<T>(std::log(static_cast<long double>(a)), std::log(static_cast<long double>(b)), n, os.str()), mc::H().add(i).add(n).add(sizeof(T)) };
}

template<class T>
static Start<T>
powers(mc::Ctx& c, std::vector<unsigned long> const& steps)
{
  static double const bases[] = { 10, 2, 2.718281828459045, 1.5, 0.5 };
  static long const ex[][2] = { { 0, 3 }, { -2, 2 }, { -8, -5 }, { 1, 2 }, { 3, 9 } };
  auto base = bases[c.choose(5)];
  auto e = c.choose(5);
  auto n = c.pick(steps);
  std::ostringstream os;
  os << "from " << base << "^" << ex[e][0] << " to " << base << "^" << ex[e][1];
  c.op("LogSpace(", ex[e][0], ", ", ex[e][1], ", ", n, ", ", base, ")");
  auto l = std::log(static_cast<long double>(base));
  return { bwsl::LogSpace<T>(ex[e][0], ex[e][1], n, base), law<T>(l * static_cast<long double>(ex[e][0]), l * static_cast<long double>(ex[e][1]), n, os.str()), mc::H().add(e).add(base).add(n).add(sizeof(T) + 100) };
}

template<class T>
static Start<T>
start(mc::Ctx& c, std::vector<unsigned long> const& steps)
{
  return c.flip() ? powers<T>(c, steps) : direct<T>(c, steps);
}

static std::vector<unsigned long> const kSteps{ 1, 2, 3, 7, 10, 64 };

template<class T>
static void
run(mc::Ctx& c, int depth)
{
  auto s = start<T>(c, kSteps);
  spaces::history(c, s.s, s.l, depth, s.h);
}
MC_FAMILY(doubles, "all histories of calls, increments, collections, iterations and restarts, for sequences given by their ends and by powers", 3)
{
  run<double>(c, mc::bound(3, 3, 5, 4));
}
MC_FAMILY(floats, "the same in single precision", 3)
{
  run<float>(c, mc::bound(3, 3, 4, 3));
}
MC_FAMILY(long_doubles, "the same in extended precision (the ratio is computed in double precision)", 3)
{
  run<long double>(c, mc::bound(3, 2, 4, 3));
}
MC_FAMILY(deep, "longer histories of one sequence of each kind", 3)
{
  auto h = mc::H();
  auto d = mc::bound(5, 4, 6, 5);
  if (c.flip()) {
    spaces::history(c, bwsl::LogSpace<double>(0.1, 0.3, 3), law<double>(std::log(static_cast<long double>(0.1)), std::log(static_cast<long double>(0.3)), 3, "from 0.1 to 0.3"), d, h);
  } else {
    spaces::history(c, bwsl::LogSpace<double>(-1L, 2L, 5, 10.0), law<double>(-std::log(10.0L), 2 * std::log(10.0L), 5, "from 0.1 to 100"), d, h.add(1));
  }
}

MC_FAMILY(far, "points up to many thousands, reached by counting", 2)
{
  auto s = start<double>(c, { 10, 1000, 20000 });
  // stay where the points are representable
  unsigned long top = mc::bound(20000UL, 5000UL, 100000UL, 20000UL);
  while (top > 0 && !(s.l.point(top + 2) < 1e300L && s.l.point(top + 2) > 1e-290L)) {
    top /= 2;
  }
  spaces::far(c, s.s, s.l, top, s.h);
}

MC_FAMILY(all_steps, "iteration over every number of steps up to some hundreds visits exactly that many points", 2)
{
  auto n = static_cast<unsigned long>(c.range(1, mc::bound(400, 100, 2000, 400)));
  auto s = start<double>(c, { n });
  spaces::iterate(c, s.s, s.l);
  for (unsigned long k = 0; k < n / 2; ++k) {
    ++s.s;
  }
  spaces::iterate(c, s.s, s.l);
  spaces::collect(c, s.s, n / 2, n, s.l);
  spaces::is_point(c, *s.s, n / 2, s.l, "the current value");
  c.state(s.h);
}

MC_FAMILY(exponents, "bases near one and exponents of up to some thousands of either sign; large bases and exponents near the ends of the range", 3)
{
  struct Range
  {
    double base;
    std::vector<long> ex;
  };
  static std::vector<Range> const r{
    { 1.01, { -5000, -1025, -1024, -257, -256, -129, -128, -1, 0, 1, 127, 128, 255, 256, 257, 1023, 1024, 1025, 5000 } },
    { 0.99, { -5000, -256, -2, 0, 3, 129, 300, 5000 } },
    { 1.0001, { -500000, -65537, -65536, -32769, -32768, 0, 32767, 32768, 65535, 65536, 65537, 500000 } },
    { 1 + 0x1p-31, { -3000000000, -2147483649, -2147483648, 0, 2147483647, 2147483648, 4294967296, 5000000000 } },
    { 2, { -1000, -300, -64, -63, -33, -32, 0, 31, 32, 33, 62, 63, 64, 65, 300, 1000 } },
    { 10, { -300, -40, -39, -20, -19, 0, 18, 19, 20, 38, 39, 40, 300 } },
    { 1e100, { -3, -2, -1, 0, 1, 2, 3 } },
  };
  auto const& e = c.pick(r);
  auto i = c.choose(static_cast<int>(e.ex.size()) - 1);
  auto j = i + 1 + c.choose(static_cast<int>(e.ex.size()) - 1 - i);
  auto n = c.pick({ 1UL, 2UL, 7UL, 100UL });
  auto a = e.ex[static_cast<size_t>(i)];
  auto b = e.ex[static_cast<size_t>(j)];
  std::ostringstream os;
  os << "from " << e.base << "^" << a << " to " << e.base << "^" << b;
  c.op(os.str(), " in ", n);
  auto log = std::log(static_cast<long double>(e.base));
  c.assume(std::fabs(log * static_cast<long double>(b - a)) < 700); // (else the factor may not be representable)
  bwsl::LogSpace<double> s(a, b, n, e.base);
  auto l = law<double>(log * static_cast<long double>(a), log * static_cast<long double>(b), n, os.str());
  spaces::iterate(c, s, l);
  spaces::collect(c, s, 0, n, l);
  s();
  spaces::is_point(c, *s, 1, l, "the second value");
  c.state(mc::H().add(e.base).add(a).add(b).add(n));
}

MC_FAMILY(many_points, "collecting and iterating over up to 2^24 + 3 points: as many as asked, every one of them", 2)
{
  auto m = c.pick(mc::bound<std::vector<unsigned long>>({ 65537, (1 << 20) + 1, (1 << 21) + 3, (1 << 24) + 3 }, { 65537 }, { 65535, 65536, 65537, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 21) + 3, (1 << 22) + 1, (1 << 24) + 3 }, { 65537, (1 << 20) + 1 }));
  bwsl::LogSpace<double> s(0.1, 0.3, m);
  auto l = law<double>(std::log(static_cast<long double>(0.1)), std::log(static_cast<long double>(0.3)), m, "from 0.1 to 0.3");
  c.op("points ", m);
  if (c.flip()) {
    ++s;
    spaces::iterate(c, s, l);
    spaces::collect(c, s, 1, 2, l);
  } else {
    s();
    spaces::collect(c, s, 1, m, l);
    spaces::is_point(c, *s, 1, l, "the current value");
  }
  c.state(mc::H().add(m).add(c.ops));
}

// many steps: the numbers of steps beyond 2^32 of a sequence are as good
MC_FAMILY(many_steps, "sequences of 2^8 to 2^53 steps: the first thousands of points, the beginning is not the end", 2)
{
  auto n = c.pick({ 255UL, 256UL, 257UL, 65535UL, 65536UL, 65537UL, 1UL << 31, (1UL << 31) + 1, (1UL << 32) - 1, 1UL << 32, (1UL << 32) + 1, (1UL << 32) + 5, 3UL << 33, 1UL << 53 });
  auto s = start<double>(c, { n });
  auto b = s.s.begin();
  MC_CHECK(c, b != s.s.end() && !(b == s.s.end()), "the end of ", n, " steps comes early");
  for (unsigned long k = 0; k < 3000; ++k) {
    if (k < n) {
      MC_CHECK(c, s.s != s.s.end(), "the end of ", n, " steps comes early, after ", k);
    }
    spaces::is_point(c, s.s(), k, s.l, "calling");
  }
  spaces::collect(c, s.s, 3000, 100, s.l);
  if (n < 100000) {
    spaces::iterate(c, s.s, s.l);
  }
  c.state(s.h);
}

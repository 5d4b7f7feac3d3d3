#include "spaces.hpp"
#include <bwsl/LinSpace.hpp>
using spaces::Law;

template<class T>
static Law
law(T a, T b, unsigned long n)
{
  auto la = static_cast<long double>(a);
  auto lb = static_cast<long double>(b);
  std::ostringstream os;
  os << "LinSpace of " << sizeof(T) << " bytes from " << a << " to " << b << " in " << n;
  long double const eps = std::is_integral_v<T> ? 0.0L : static_cast<long double>(std::numeric_limits<T>::epsilon()) / 2;
  return { os.str(), n,
           [=](unsigned long k) { return la + static_cast<long double>(k) * ((lb - la) / static_cast<long double>(n)); },
           [=](unsigned long k) {
             auto way = static_cast<long double>(k) * ((lb - la) / static_cast<long double>(n));
             return 6 * eps * (std::fabs(la) + std::fabs(way)) + (std::is_integral_v<T> ? 0.0L : 1e-310L * static_cast<long double>(k + 1)) + 4e-19L * (std::fabs(la) + std::fabs(way)) * (std::is_same_v<T, long double> ? 4 : 0);
           } };
}

template<class T>
struct Range
{
  T a, b;
};
template<class T>
static std::vector<Range<T>> const&
ranges()
{
  static std::vector<Range<T>> const r{ { T(0), T(1) }, { T(-1), T(5) }, { T(0.1), T(0.3) }, { T(-3), T(-2.5) }, { T(1e20), T(3e20) }, { T(-1e-20), T(2e-20) }, { T(1000000), T(1000001) }, { T(0), T(1e-30) } };
  return r;
}

template<class T>
static void
run(mc::Ctx& c, int depth)
{
  auto r = c.pick(ranges<T>());
  auto n = c.pick({ 1UL, 2UL, 3UL, 7UL, 10UL, 64UL });
  spaces::history(c, bwsl::LinSpace<T>(r.a, r.b, n), law<T>(r.a, r.b, n), depth, mc::H().add(static_cast<double>(r.a)).add(static_cast<double>(r.b)).add(n).add(sizeof(T)));
}
MC_FAMILY(doubles, "all histories of calls, increments, collections, iterations and restarts for eight intervals and six numbers of steps", 3)
{
  run<double>(c, mc::bound(4, 3, 5, 4));
}
MC_FAMILY(floats, "the same in single precision", 3)
{
  run<float>(c, mc::bound(4, 3, 5, 4));
}
MC_FAMILY(long_doubles, "the same in extended precision", 3)
{
  run<long double>(c, mc::bound(3, 3, 4, 3));
}

template<class T>
static void
integers(mc::Ctx& c, int depth)
{
  auto n = c.pick({ 1UL, 2UL, 5UL, 12UL });
  auto width = c.pick({ 1, 3, 1000 });
  auto a = c.pick({ 0, 7, 100 });
  if (std::is_signed_v<T> && c.flip()) {
    a = -a - 2;
  }
  auto first = static_cast<T>(a);
  auto last = static_cast<T>(a + width * static_cast<int>(n));
  spaces::history(c, bwsl::LinSpace<T>(first, last, n), law<T>(first, last, n), depth, mc::H().add(a).add(width).add(n).add(sizeof(T)));
}
MC_FAMILY(integers, "integer sequences whose length is a multiple of the number of steps, exactly", 3)
{
  int d = mc::bound(3, 2, 4, 3);
  switch (c.choose(4)) {
    case 0: integers<int>(c, d); break;
    case 1: integers<long>(c, d); break;
    case 2: integers<unsigned long>(c, d); break;
    default: integers<unsigned>(c, d); break;
  }
}

MC_FAMILY(far, "points up to the millionth, reached by counting: the error does not grow", 2)
{
  auto n = c.pick({ 1UL, 3UL, 10UL, 1000UL, 100000UL, 1000003UL });
  auto i = static_cast<size_t>(c.choose(8));
  auto top = mc::bound(300000UL, 30000UL, 3000000UL, 300000UL);
  if (c.flip()) {
    auto r = ranges<float>()[i];
    spaces::far(c, bwsl::LinSpace<float>(r.a, r.b, n), law<float>(r.a, r.b, n), top, mc::H().add(n).add(i).add(1));
  } else {
    auto r = ranges<double>()[i];
    spaces::far(c, bwsl::LinSpace<double>(r.a, r.b, n), law<double>(r.a, r.b, n), top, mc::H().add(n).add(i));
  }
}

MC_FAMILY(all_steps, "iteration over every number of steps up to some hundreds visits exactly that many points", 2)
{
  auto n = static_cast<unsigned long>(c.range(1, mc::bound(500, 200, 2000, 500)));
  auto r = c.pick(ranges<double>());
  bwsl::LinSpace<double> s(r.a, r.b, n);
  auto l = law<double>(r.a, r.b, n);
  c.op("steps ", n);
  spaces::iterate(c, s, l);
  for (unsigned long k = 0; k < n / 2; ++k) {
    ++s;
  }
  spaces::iterate(c, s, l);
  spaces::collect(c, s, n / 2, n, l);
  spaces::is_point(c, *s, n / 2, l, "the current value");
  c.state(mc::H().add(n).add(r.a));
}

// many steps: the numbers of steps beyond 2^32 of a sequence are as good
MC_FAMILY(many_steps, "sequences of 2^8 to 2^53 steps: the first thousands of points", 2)
{
  auto n = c.pick({ 255UL, 256UL, 257UL, 65535UL, 65536UL, 65537UL, 1UL << 31, (1UL << 31) + 1, (1UL << 32) - 1, 1UL << 32, (1UL << 32) + 1, (1UL << 32) + 5, 3UL << 33, 1UL << 53 });
  auto i = static_cast<size_t>(c.choose(8));
  auto r = ranges<double>()[i];
  auto s = bwsl::LinSpace<double>(r.a, r.b, n);
  auto l = law<double>(r.a, r.b, n);
  c.op("steps ", n);
  for (unsigned long k = 0; k < 3000; ++k) {
    if (k < n) {
      MC_CHECK(c, s != s.end(), "the end of ", n, " steps comes early, after ", k);
    }
    spaces::is_point(c, s(), k, l, "calling");
  }
  MC_CHECK(c, s.begin() != s.end(), "the end of ", n, " steps comes early");
  if (n < 100000) {
    spaces::iterate(c, s, l);
  }
  spaces::collect(c, s, 3000, 100, l);
  c.state(mc::H().add(n).add(i));
}

MC_FAMILY(many_points, "collecting and iterating over up to 2^24 + 3 points: as many as asked, every one of them", 2)
{
  auto m = c.pick(mc::bound<std::vector<unsigned long>>({ 65535, 65536, 65537, (1 << 20) + 1, (1 << 21) + 3, (1 << 24) + 3 }, { 65537, (1 << 20) + 1 }, { 65535, 65536, 65537, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 21) + 3, (1 << 22) + 1, (1 << 24) + 3, (1 << 25) + 1 }, { 65537, (1 << 20) + 1, (1 << 21) + 3 }));
  auto what = c.choose(3);
  auto n = c.pick({ 10UL, m });
  auto s = bwsl::LinSpace<double>(-1, 5, n);
  auto l = law<double>(-1, 5, n);
  c.op("points ", m, " of ", n);
  if (what == 0) {
    spaces::collect(c, s, 0, m, l);
  } else if (what == 1) {
    c.assume(n == m);
    ++s;
    spaces::iterate(c, s, l);
    spaces::collect(c, s, 1, 2, l);
  } else {
    s();
    ++s;
    spaces::collect(c, s, 2, m, l);
    spaces::is_point(c, *s, 2, l, "the current value");
  }
  c.state(mc::H().add(m).add(n).add(what));
}

// Counting on beyond 2^32 points, the index does not wrap
MC_FAMILY(beyond, "sequences counted on to the points 2^24 + 3 (single precision) and 2^32 + 3 (double precision)", 1)
{
  if (c.choose(mc::bound(2, 1, 2, 1)) == 0) {
    bwsl::LinSpace<float> s(0, 16, 64);
    auto l = law<float>(0, 16, 64);
    unsigned long const top = (1UL << 24) + 3;
    for (unsigned long k = 0; k < top; ++k) {
      ++s;
    }
    spaces::is_point(c, *s, top, l, "counting");
    spaces::collect(c, s, top, 3, l);
    c.op("counted to ", top);
  } else {
    bwsl::LinSpace<double> s(-1, 5, 3);
    auto l = law<double>(-1, 5, 3);
    unsigned long const top = (1UL << 32) + 3;
    for (unsigned long k = 0; k < top; ++k) {
      ++s;
      if (k % (1UL << 24) == 0 && c.me != nullptr) {
        c.me->checks.fetch_add(1);
        spaces::is_point(c, *s, k + 1, l, "counting");
      }
    }
    spaces::is_point(c, *s, top, l, "counting");
    spaces::collect(c, s, top, 3, l);
    c.op("counted to ", top);
  }
  c.state(mc::H().add(c.ops));
}

// Histories of sequences (LinSpace and LogSpace): position model.
#pragma once
#include "mc.hpp"
#include <cmath>
#include <iterator>
#include <vector>

namespace spaces {

/// Point k of the sequence and the error it may have
struct Law
{
  std::string name;
  unsigned long n;
  std::function<long double(unsigned long)> point;
  std::function<long double(unsigned long)> error;
};

template<class T>
inline void
is_point(mc::Ctx& c, T got, unsigned long k, Law const& l, char const* how)
{
  auto want = l.point(k);
  auto lim = l.error(k);
  if constexpr (std::is_floating_point_v<T>) {
    auto mag = std::fabs(want);
    if (mag > static_cast<long double>(std::numeric_limits<T>::max()) / 2 || (mag > 0 && mag < static_cast<long double>(std::numeric_limits<T>::min()) * 4)) {
      return; // not representable
    }
  }
  MC_CHECK(c, std::fabs(static_cast<long double>(got) - want) <= lim, l.name, ": ", how, " gives ", got, " for point ", k, ", expected ", want, " +- ", lim);
}

/// the first n points, whatever the position
template<class S>
inline void
iterate(mc::Ctx& c, S& s, Law const& l)
{
  unsigned long k = 0;
  for (auto x : s) {
    MC_CHECK(c, k < l.n, l.name, ": iterating visits more than ", l.n, " points");
    is_point(c, x, k, l, "iterating");
    ++k;
  }
  MC_CHECK(c, k == l.n, l.name, ": iterating visits ", k, " of ", l.n, " points");
}

template<class S>
inline void
collect(mc::Ctx& c, S& s, unsigned long position, unsigned long m, Law const& l)
{
  auto v = s.Collect(m);
  MC_CHECK(c, v.size() == m, l.name, ": collecting ", m, " gives ", v.size());
  for (unsigned long i = 0; i < m; ++i) {
    is_point(c, v[i], position + i, l, "collecting");
  }
}

constexpr int kOps = 9;
template<class S>
inline void
step(mc::Ctx& c, S& s, unsigned long& k, Law const& l, int op)
{
  switch (op) {
    case 0: {
      c.op("call");
      is_point(c, s(), k, l, "calling");
      ++k;
      break;
    }
    case 1: {
      c.op("prefix");
      auto& r = ++s;
      ++k;
      MC_CHECK(c, &r == &s, l.name, ": the prefix increment returns something else");
      break;
    }
    case 2: {
      c.op("postfix");
      auto old = s++;
      is_point(c, *old, k, l, "the result of the postfix increment");
      // the old position goes on by itself
      is_point(c, old(), k, l, "calling the result of the postfix increment");
      is_point(c, *old, k + 1, l, "advancing the result of the postfix increment");
      ++k;
      break;
    }
    case 3:
      c.op("collect 0, 1 and 3");
      collect(c, s, k, 0, l);
      collect(c, s, k, 1, l);
      collect(c, s, k, 3, l);
      break;
    case 4:
      c.op("collect ", l.n + 2);
      collect(c, s, k, l.n + 2, l);
      break;
    case 5:
      c.op("iterate");
      iterate(c, s, l);
      break;
    case 6: {
      c.op("start again");
      s = s.begin();
      k = 0;
      break;
    }
    case 7: {
      c.op("by hand");
      auto b = s.begin();
      auto e = s.end();
      unsigned long n = 0;
      for (; b != e; b++) {
        MC_CHECK(c, !(b == e), l.name, ": equal and different");
        is_point(c, *b, n, l, "iterating by hand");
        ++n;
        MC_CHECK(c, n <= l.n, l.name, ": the end is missed");
      }
      MC_CHECK(c, n == l.n && b == e, l.name, ": ", n, " of ", l.n, " points by hand");
      // past its end and back to the beginning
      ++e;
      auto again = e.begin();
      is_point(c, *again, 0, l, "the beginning of an end");
      iterate(c, e, l);
      break;
    }
    default: {
      c.op("copy");
      auto copy(s);
      copy();
      copy();
      is_point(c, *copy, k + 2, l, "a copy");
      std::vector<decltype(s())> v;
      std::generate_n(std::back_inserter(v), 3, std::ref(s));
      for (unsigned long i = 0; i < 3; ++i) {
        is_point(c, v[i], k + i, l, "generating");
      }
      k += 3;
      break;
    }
  }
  is_point(c, *s, k, l, "the current value");
  is_point(c, *s, k, l, "the current value, once more");
}

template<class S>
inline void
history(mc::Ctx& c, S s, Law const& l, int depth, mc::H h)
{
  unsigned long k = 0;
  is_point(c, *s, 0, l, "the first value");
  for (int i = 0; i < depth; ++i) {
    auto op = c.choose(kOps);
    step(c, s, k, l, op);
    c.state(h.add(op).add(k));
  }
  iterate(c, s, l);
  is_point(c, *s, k, l, "the current value at last");
}

/// Far away points reached by counting and by collecting
template<class S>
inline void
far(mc::Ctx& c, S s, Law const& l, unsigned long top, mc::H h)
{
  unsigned long k = 0;
  unsigned long next = 1;
  while (k < top) {
    if (k == next) {
      next += next / 8 + 1;
      is_point(c, *s, k, l, "counting");
      c.state(mc::H(h).add(k));
    }
    switch (k % 3) {
      case 0: ++s; break;
      case 1: s(); break;
      default: s++; break;
    }
    ++k;
    if (k % 10000 == 0 && c.me != nullptr) {
      c.me->checks.fetch_add(1);
    }
  }
  c.op("counted to ", k);
  is_point(c, *s, k, l, "counting");
  collect(c, s, k, 2, l);
  auto b = s.begin();
  collect(c, b, 0, std::min(top, 70001UL), l);
}
} // namespace spaces

#include "mc.hpp"
#include <bwsl/MathUtils.hpp>
#include <cmath>
#include <deque>
#include <functional>
#include <list>

/// Reads and moves of one search
struct Watch
{
  uint64_t reads = 0;
  uint64_t limit = 0;
};

/// Iterator that refuses to leave its range and to read outside of it
template<class T, class Tag>
struct Checked
{
  using iterator_category = Tag;
  using value_type = T;
  using difference_type = std::ptrdiff_t;
  using pointer = T const*;
  using reference = T const&;
  T const* lo = nullptr;
  difference_type n = 0;
  difference_type at = 0;
  Watch* w = nullptr;
  static constexpr bool random = std::is_same_v<Tag, std::random_access_iterator_tag>;

  void inside() const
  {
    if (at < 0 || at > n) {
      mc::fail("the search moves outside of the range, to position ", at, " of ", n);
    }
  }
  reference operator*() const
  {
    if (at < 0 || at >= n) {
      mc::fail("the search reads outside of the range, at position ", at, " of ", n);
    }
    if (++w->reads > w->limit) {
      mc::fail("the search does not end");
    }
    return lo[at];
  }
  pointer operator->() const { return &**this; }
  Checked& operator++() { ++at; inside(); return *this; }
  Checked& operator--() { --at; inside(); return *this; }
  Checked operator++(int) { auto r = *this; ++*this; return r; }
  Checked operator--(int) { auto r = *this; --*this; return r; }
  bool operator==(Checked const& o) const { return at == o.at; }
  bool operator!=(Checked const& o) const { return at != o.at; }
  // (not part of the lesser categories)
  Checked& operator+=(difference_type d) { at += d; inside(); return *this; }
  Checked& operator-=(difference_type d) { at -= d; inside(); return *this; }
  Checked operator+(difference_type d) const { auto r = *this; r += d; return r; }
  Checked operator-(difference_type d) const { auto r = *this; r -= d; return r; }
  difference_type operator-(Checked const& o) const { return at - o.at; }
  reference operator[](difference_type d) const { return *(*this + d); }
  bool operator<(Checked const& o) const { return at < o.at; }
  bool operator>(Checked const& o) const { return at > o.at; }
  bool operator<=(Checked const& o) const { return at <= o.at; }
  bool operator>=(Checked const& o) const { return at >= o.at; }
};

template<class T, class V>
static void
judge(mc::Ctx& c, std::vector<T> const& v, V const& x, std::ptrdiff_t got, char const* what)
{
  auto n = static_cast<std::ptrdiff_t>(v.size());
  MC_CHECK(c, got >= 0 && got <= n, what, ": position ", got, " of ", n, " for the value ", +x);
  if (got > 0) {
    MC_CHECK(c, !(x < v[static_cast<size_t>(got - 1)]), what, ": position ", got, " of ", n, " for the value ", +x, " but the element before is greater already: ", +v[static_cast<size_t>(got - 1)]);
  }
  if (got < n) {
    MC_CHECK(c, x < v[static_cast<size_t>(got)], what, ": position ", got, " of ", n, " for the value ", +x, " but the element there is not greater: ", +v[static_cast<size_t>(got)]);
  }
}

template<class Tag, class T, class V>
static void
checked(mc::Ctx& c, std::vector<T> const& v, V const& x, char const* what)
{
  Watch w;
  w.limit = 20 * v.size() + 1000;
  Checked<T, Tag> b;
  b.lo = v.data();
  b.n = static_cast<std::ptrdiff_t>(v.size());
  b.w = &w;
  auto e = b;
  e.at = b.n;
  auto r = bwsl::upper_bound(b, e, x);
  ++c.ops;
  judge(c, v, x, r.at, what);
}

template<class T, class V>
static void
search(mc::Ctx& c, std::vector<T> const& v, V const& x, bool plain)
{
  checked<std::random_access_iterator_tag>(c, v, x, "checked iterators");
  if (plain) {
    auto r = bwsl::upper_bound(v.begin(), v.end(), x);
    judge(c, v, x, r - v.begin(), "iterators");
    auto p = bwsl::upper_bound(v.data(), v.data() + v.size(), x);
    judge(c, v, x, p - v.data(), "pointers");
    c.ops += 2;
  }
  if (c.me != nullptr) {
    c.me->checks.fetch_add(1);
  }
}

// ---------------------------------------------------------------- short ranges
template<class T>
static std::vector<T>
letters()
{
  using L = std::numeric_limits<T>;
  if constexpr (std::is_floating_point_v<T>) {
    return { L::lowest(), T(-1.5), T(0), T(0.25), T(3), L::max() };
  } else {
    return { L::min(), T(1), T(2), T(5), T(L::max() - 1), L::max() };
  }
}
template<class T>
static std::vector<T>
values()
{
  using L = std::numeric_limits<T>;
  if constexpr (std::is_floating_point_v<T>) {
    return { L::lowest(), -L::infinity(), T(-1e30), T(-1.5), T(-1), T(0), L::denorm_min(), T(0.25), T(1), T(3), T(4), L::max(), L::infinity() };
  } else {
    return { L::min(), T(L::min() + 1), T(0), T(1), T(2), T(3), T(5), T(6), T(L::max() - 2), T(L::max() - 1), L::max() };
  }
}
template<class T>
static void
short_one(mc::Ctx& c)
{
  static auto const a = letters<T>();
  static auto const x = values<T>();
  auto n = c.choose(mc::bound(7, 6, 9, 7));
  std::vector<T> v;
  size_t l = 0;
  mc::H h;
  for (int i = 0; i < n; ++i) {
    l += static_cast<size_t>(c.choose(static_cast<int>(a.size() - l)));
    v.push_back(a[l]);
    h.add(l);
  }
  c.state(h.add(sizeof(T)).add(std::is_signed_v<T>).add(std::is_floating_point_v<T>));
  std::list<T> const li(v.begin(), v.end());
  std::deque<T> const de(v.begin(), v.end());
  std::vector<T> mut(v);
  for (auto y : x) {
    c.note("value ", +y, " in ", v.size(), " elements");
    search(c, v, y, true);
    checked<std::bidirectional_iterator_tag>(c, v, y, "checked bidirectional iterators");
    judge(c, v, y, std::distance(li.begin(), bwsl::upper_bound(li.begin(), li.end(), y)), "list");
    judge(c, v, y, bwsl::upper_bound(de.begin(), de.end(), y) - de.begin(), "deque");
    judge(c, v, y, bwsl::upper_bound(mut.begin(), mut.end(), y) - mut.begin(), "modifiable");
    // a part of a larger range
    if (v.size() > 2) {
      std::vector<T> const part(v.begin() + 1, v.end() - 1);
      judge(c, part, y, bwsl::upper_bound(v.begin() + 1, v.end() - 1, y) - (v.begin() + 1), "inner part");
    }
  }
  MC_CHECK(c, mut == v, "the range has been modified");
}
MC_FAMILY(short_ranges, "all sorted ranges over six letters up to a length, all values at, between and around, for eight element types", 3)
{
  switch (c.choose(8)) {
    case 0: short_one<int>(c); break;
    case 1: short_one<double>(c); break;
    case 2: short_one<long>(c); break;
    case 3: short_one<unsigned long>(c); break;
    case 4: short_one<float>(c); break;
    case 5: short_one<unsigned char>(c); break;
    case 6: short_one<short>(c); break;
    default: short_one<unsigned>(c); break;
  }
}

// ----------------------------------------------------------------- long ranges
/// Appends n elements beginning a gap above the last one
template<class T>
static bool
block(std::vector<T>& v, T start, T gap, int kind, size_t n)
{
  auto lim = std::numeric_limits<T>::max();
  auto x = start;
  if (!v.empty()) {
    x = v.back();
    if (x > 0 && gap > lim - x) {
      return false;
    }
    x = static_cast<T>(x + gap);
  }
  for (size_t i = 0; i < n; ++i) {
    v.push_back(x);
    T step = 0;
    switch (kind) {
      case 0: break;
      case 1: step = 1; break;
      case 2: step = i % 7 == 0 ? 3 : 0; break;
      case 3: step = static_cast<T>(i / 3); break;
      default: // doubling as long as possible
        step = x > 0 ? x : 1;
        if (x > lim / 4) {
          step = 0;
        }
        break;
    }
    if (x > 0 && step > lim - x) {
      return false;
    }
    x = static_cast<T>(x + step);
  }
  return true;
}

template<class T>
static void
query(mc::Ctx& c, std::vector<T> const& v, std::vector<size_t> const& ends, bool plain, bool bidirectional)
{
  using L = std::numeric_limits<T>;
  std::vector<T> xs{ L::lowest(), L::max(), T(0), T(1) };
  size_t from = 0;
  for (auto e : ends) {
    for (auto i : { from, from + 1, (from + e) / 2, from + (e - from) / 3, e - 1, e < 2 ? 0 : e - 2 }) {
      if (i < v.size()) {
        xs.push_back(v[i]);
        if (v[i] < L::max()) {
          xs.push_back(static_cast<T>(v[i] + (std::is_floating_point_v<T> ? T(0.5) : T(1))));
        }
        if (v[i] > L::lowest()) {
          xs.push_back(static_cast<T>(v[i] - (std::is_floating_point_v<T> ? T(0.5) : T(1))));
        }
      }
    }
    // between this block and the next
    if (e < v.size()) {
      xs.push_back(static_cast<T>(v[e - 1] / 2 + v[e] / 2));
    }
    from = e;
  }
  std::sort(xs.begin(), xs.end());
  xs.erase(std::unique(xs.begin(), xs.end()), xs.end());
  for (auto x : xs) {
    c.note("value ", +x);
    search(c, v, x, plain);
    if (bidirectional) {
      checked<std::bidirectional_iterator_tag>(c, v, x, "checked bidirectional iterators");
    }
  }
}

template<class T>
static void
blocks(mc::Ctx& c, std::vector<T> const& starts, std::vector<T> const& gaps, int nkinds, std::vector<size_t> const& lengths, int nblocks)
{
  std::vector<T> v;
  std::vector<size_t> ends;
  auto start = starts[static_cast<size_t>(c.choose(static_cast<int>(starts.size())))];
  mc::H h;
  h.add(static_cast<double>(start));
  for (int b = 0; b < nblocks; ++b) {
    auto g = b == 0 ? T(0) : gaps[static_cast<size_t>(c.choose(static_cast<int>(gaps.size())))];
    auto k = c.choose(nkinds);
    auto n = lengths[static_cast<size_t>(c.choose(static_cast<int>(lengths.size())))];
    c.note("block of ", n, " elements of kind ", k, " after a gap of ", +g);
    c.assume(block(v, start, g, k, n));
    ends.push_back(v.size());
    h.add(static_cast<double>(g)).add(k).add(n);
  }
  c.assume(v.size() > 9990);
  c.state(h.add(sizeof(T)).add(std::is_floating_point_v<T>));
  query(c, v, ends, true, false);
}

static std::vector<size_t> const&
lengths()
{
  static std::vector<size_t> const quick{ 1, 2, 9999, 10000, 10001 };
  static std::vector<size_t> const deep{ 1, 2, 3, 100, 5000, 9999, 10000, 10001, 10002, 20003 };
  return mc::thorough && !mc::san ? deep : quick;
}

MC_FAMILY(blocks_double, "ranges of floating point numbers above the threshold made of blocks in all ways", 3)
{
  static std::vector<double> const gaps{ 0, 1, 1e6, 1e300 };
  switch (c.choose(3)) {
    case 0: blocks<double>(c, { 0, -5000, 1e15 }, gaps, 5, lengths(), mc::bound(2, 2, 3, 2)); break;
    case 1: blocks<double>(c, { -1e3 }, { 0, 1, 1e9 }, 3, { 1, 10000 }, 3); break;
    default: blocks<float>(c, { 0, -5000 }, { 0, 1, 1e6F, 1e38F }, 4, { 1, 2, 10000, 10001 }, 2); break;
  }
}
MC_FAMILY(blocks_int, "ranges of integers above the threshold made of blocks in all ways, over the whole range of the type", 3)
{
  switch (c.choose(5)) {
    case 0: blocks<int>(c, { 0, std::numeric_limits<int>::min(), -2000000000 }, { 0, 1, 1000, 2000000000 }, 4, lengths(), mc::bound(2, 2, 3, 2)); break;
    case 1: blocks<long>(c, { 0, std::numeric_limits<long>::min(), (1L << 62) }, { 0, 1, 1L << 40, std::numeric_limits<long>::max() }, 4, lengths(), 2); break;
    case 2: blocks<unsigned long>(c, { 0, 1UL << 63 }, { 0, 1, 1000, 1UL << 63 }, 4, lengths(), 2); break;
    case 3: blocks<int>(c, { -5, std::numeric_limits<int>::min() }, { 0, 1, std::numeric_limits<int>::max() }, 2, { 1, 10000 }, 3); break;
    default: blocks<unsigned char>(c, { 0, 3 }, { 0, 1, 100 }, 1, { 1, 5000, 10001 }, 4); break;
  }
}

/// One step at every position next to the thresholds
MC_FAMILY(steps, "step functions and ramps of all lengths around the threshold, the step at every position of a list", 3)
{
  auto n = static_cast<size_t>(c.range(9997, mc::bound(10010, 10003, 10060, 10010)));
  auto p = static_cast<size_t>(c.choose(40));
  p = p < 12 ? p : p < 28 ? n / 2 + p - 20 : n + p - 39; // first, middle, last positions up to n
  auto kind = c.choose(3);
  c.note(n, " elements with a step at ", p);
  std::vector<double> v(n);
  for (size_t i = 0; i < n; ++i) {
    v[i] = kind == 0 ? (i < p ? 0 : 1) : kind == 1 ? static_cast<double>(i) + (i < p ? 0 : 1000) : (i < p ? static_cast<double>(i) : static_cast<double>(p));
  }
  c.state(mc::H().add(n).add(p).add(kind));
  query(c, v, { std::max<size_t>(p, 1), n }, true, false);
  std::vector<long> w(v.begin(), v.end());
  query(c, w, { std::max<size_t>(p, 1), n }, false, false);
}

MC_FAMILY(categories, "lists, deques, bidirectional iterators and mixed types above the threshold", 3)
{
  auto n = static_cast<size_t>(c.pick({ 10000, 10001, 10002, 12000, 20001 }));
  auto kind = c.choose(4);
  std::vector<double> v;
  block<double>(v, kind == 3 ? -100 : 0, 0, kind, n);
  c.note(n, " elements of kind ", kind);
  c.state(mc::H().add(n).add(kind));
  switch (c.choose(4)) {
    case 0: query(c, v, { n / 2, n }, false, true); break;
    case 1: {
      std::list<double> const li(v.begin(), v.end());
      std::deque<double> const de(v.begin(), v.end());
      for (auto x : { -101.0, -1.0, 0.0, 0.5, v[n / 2], v[n - 1], v[n - 1] + 1, v[1], v[n - 2] }) {
        judge(c, v, x, std::distance(li.begin(), bwsl::upper_bound(li.begin(), li.end(), x)), "list");
        judge(c, v, x, bwsl::upper_bound(de.begin(), de.end(), x) - de.begin(), "deque");
        c.ops += 2;
      }
      break;
    }
    case 2: { // values of another type than the elements
      for (auto x : { -101, -1, 0, 1, 5000, static_cast<int>(v[n / 2]), static_cast<int>(v[n - 1]), static_cast<int>(v[n - 1]) + 1 }) {
        search(c, v, x, true);
        search(c, v, static_cast<float>(x), true);
        search(c, v, static_cast<long>(x), true);
      }
      break;
    }
    default: {
      std::vector<int> w(v.begin(), v.end());
      for (auto x : { -101.5, -1.0, 0.0, 0.5, v[n / 2], v[n / 2] + 0.5, v[n - 1], v[n - 1] + 1, v[n - 1] - 0.25 }) {
        search(c, w, x, true);
      }
      for (auto x : { -101L, 0L, 1L, static_cast<long>(v[n / 2]), static_cast<long>(v[n - 1]), 1L << 40, -(1L << 40) }) {
        search(c, w, x, true);
      }
      break;
    }
  }
}

MC_FAMILY(limits, "long ranges with infinite and denormal numbers and neighbouring numbers of the largest magnitude", 3)
{
  auto n = static_cast<size_t>(c.pick({ 10001, 10500, 20001 }));
  auto low = c.choose(4);
  auto high = c.choose(4);
  auto mid = c.choose(4);
  auto const inf = std::numeric_limits<double>::infinity();
  auto const mx = std::numeric_limits<double>::max();
  std::vector<double> v;
  v.insert(v.end(), static_cast<size_t>(c.pick({ 0, 1, 5000 })), low == 0 ? -inf : low == 1 ? -mx : low == 2 ? -1e308 : -5e-324);
  while (v.size() < n) {
    auto i = static_cast<double>(v.size());
    v.push_back(mid == 0 ? i : mid == 1 ? i * 5e-324 : mid == 2 ? i * 1e303 : std::nextafter(0.0, 1.0));
  }
  v.insert(v.end(), static_cast<size_t>(c.pick({ 0, 1, 5000 })), high == 0 ? inf : high == 1 ? mx : high == 2 ? 1e308 : 1e307 * 5);
  c.note(v.size(), " elements of kind ", low, " ", mid, " ", high);
  c.state(mc::H().add(n).add(low).add(mid).add(high).add(v.size()).add(v[0]));
  std::sort(v.begin(), v.end());
  for (auto x : { -inf, -mx, -1e308, -1.0, -5e-324, 0.0, 5e-324, 1e-323, 5000 * 5e-324, 1.0, 5000.0, 5000.5, 5e306, 1e307, 1e308, mx, inf, v[n / 2], v[n / 3], v[n - 1] }) {
    c.note("value ", x);
    search(c, v, x, true);
  }
  if (low == 0 && high == 0) { // neighbouring integers that floating point numbers do not tell apart
    std::vector<long> w;
    for (size_t i = 0; i < n; ++i) {
      w.push_back(std::numeric_limits<long>::max() - static_cast<long>(n) + static_cast<long>(i) + 1 - mid);
    }
    for (auto x : { 0L, w[0] - 1, w[0], w[1], w[n / 2], w[n - 2], w[n - 1], std::numeric_limits<long>::max() }) {
      search(c, w, x, true);
    }
  }
}

// ----------------------------------------------------------------- huge ranges
/// Iterator over a range nobody stores: the elements follow from the positions
template<class T>
struct Virtual
{
  using iterator_category = std::random_access_iterator_tag;
  using value_type = T;
  using difference_type = std::ptrdiff_t;
  using pointer = T const*;
  using reference = T;
  std::function<T(difference_type)> const* f = nullptr;
  difference_type n = 0;
  difference_type at = 0;
  Watch* w = nullptr;
  void inside() const
  {
    if (at < 0 || at > n) {
      mc::fail("the search moves outside of the range, to position ", at, " of ", n);
    }
  }
  reference operator*() const
  {
    if (at < 0 || at >= n) {
      mc::fail("the search reads outside of the range, at position ", at, " of ", n);
    }
    if (++w->reads > w->limit) {
      mc::fail("the search does not end");
    }
    return (*f)(at);
  }
  Virtual& operator++() { ++at; inside(); return *this; }
  Virtual& operator--() { --at; inside(); return *this; }
  Virtual operator++(int) { auto r = *this; ++*this; return r; }
  Virtual operator--(int) { auto r = *this; --*this; return r; }
  bool operator==(Virtual const& o) const { return at == o.at; }
  bool operator!=(Virtual const& o) const { return at != o.at; }
  Virtual& operator+=(difference_type d) { at += d; inside(); return *this; }
  Virtual& operator-=(difference_type d) { at -= d; inside(); return *this; }
  Virtual operator+(difference_type d) const { auto r = *this; r += d; return r; }
  Virtual operator-(difference_type d) const { auto r = *this; r -= d; return r; }
  difference_type operator-(Virtual const& o) const { return at - o.at; }
  reference operator[](difference_type d) const { return *(*this + d); }
  bool operator<(Virtual const& o) const { return at < o.at; }
  bool operator>(Virtual const& o) const { return at > o.at; }
  bool operator<=(Virtual const& o) const { return at <= o.at; }
  bool operator>=(Virtual const& o) const { return at >= o.at; }
};

template<class T>
static void
huge(mc::Ctx& c, std::ptrdiff_t n, int kind, std::ptrdiff_t p)
{
  std::function<T(std::ptrdiff_t)> f;
  switch (kind) {
    case 0: f = [](std::ptrdiff_t i) { return static_cast<T>(i); }; break;
    case 1: f = [n](std::ptrdiff_t i) { return static_cast<T>(i - n / 2); }; break;
    case 2: f = [](std::ptrdiff_t i) { return static_cast<T>(i / 3); }; break;
    case 3: f = [p](std::ptrdiff_t i) { return static_cast<T>(i < p ? i : i + 1000); }; break;
    case 4: f = [p, n](std::ptrdiff_t i) { return static_cast<T>(i < p ? i : i + n / 4); }; break;
    default: f = [p](std::ptrdiff_t i) { return static_cast<T>(i < p ? i : i > p + 30000 ? i - 30000 : p); }; break;
  }
  Watch w;
  w.limit = 20000000;
  Virtual<T> b;
  b.f = &f;
  b.n = n;
  b.w = &w;
  auto e = b;
  e.at = n;
  std::vector<T> xs{ static_cast<T>(f(0) - 1), static_cast<T>(f(n - 1) + 1), T(0), T(1) };
  for (auto i : { std::ptrdiff_t{ 0 }, std::ptrdiff_t{ 1 }, n / 3, n / 2, n / 2 + 1, n - 2, n - 1, p - 1, p, p + 1, p + 29999, p + 40000, std::ptrdiff_t{ 0x7fffffff }, std::ptrdiff_t{ 0x80000000 }, std::ptrdiff_t{ 0xffffffff }, std::ptrdiff_t{ 0x100000000 }, std::ptrdiff_t{ 0x100002710 } }) {
    if (i >= 0 && i < n) {
      xs.push_back(f(i));
      xs.push_back(static_cast<T>(f(i) + 1));
    }
  }
  for (auto x : xs) {
    c.note("value ", x, " in ", n, " elements of kind ", kind, " changing at ", p);
    w.reads = 0;
    auto r = bwsl::upper_bound(b, e, x);
    ++c.ops;
    MC_CHECK(c, r.at >= 0 && r.at <= n, "position ", r.at, " of ", n);
    MC_CHECK(c, r.at == 0 || !(x < f(r.at - 1)), "position ", r.at, " of ", n, " for ", x, " but the element before is greater already: ", f(r.at - 1));
    MC_CHECK(c, r.at == n || x < f(r.at), "position ", r.at, " of ", n, " for ", x, " but the element there is not greater: ", f(r.at));
  }
}
MC_FAMILY(huge_ranges, "ranges of 2^31 to 2^45 elements (computed, not stored): ramps with a gap or a level part at every position of a list", 3)
{
  static std::vector<std::ptrdiff_t> const ns{ 65535, 65537, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0x100000000, 0x100000001, 0x100002711, 0x123456789, std::ptrdiff_t{ 1 } << 34, std::ptrdiff_t{ 3 } << 40, std::ptrdiff_t{ 1 } << 45 };
  auto n = c.pick(ns);
  auto kind = c.choose(6);
  auto p = kind < 3 ? n / 2 : c.pick({ n / 2, n / 3, n - 20000, n / 5 * 4, std::ptrdiff_t{ 20001 } });
  c.flip() ? huge<double>(c, n, kind, p) : huge<long>(c, n, kind, p);
  c.state(mc::H().add(static_cast<uint64_t>(n)).add(kind).add(static_cast<uint64_t>(p)));
}

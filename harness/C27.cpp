#include "mc.hpp"
#include <array>
#include <bwsl/MathUtils.hpp>
#include <cmath>
#include <deque>
#include <list>
#include <set>
#include <valarray>

using i128 = __int128;

template<class T>
static bool
fits(long double x)
{
  if constexpr (std::is_floating_point_v<T>) {
    return std::fabs(x) < 0x1p24L; // exactly representable with all partial results
  } else {
    return x >= static_cast<long double>(std::numeric_limits<T>::min()) && x <= static_cast<long double>(std::numeric_limits<T>::max());
  }
}

template<class C>
static std::string
show(C const& v)
{
  std::ostringstream os;
  os.precision(17);
  os << "(";
  for (auto const& x : v) {
    os << " " << +x;
  }
  os << " )";
  return os.str();
}

/// The elements as exact numbers (64 bits of precision hold all of them)
struct Exact
{
  std::vector<long double> v;
  long double sum = 0, pos = 0, neg = 0;
  long double prod = 1, absprod = 1;
  long double sq = 0;
  long double lo = 0, hi = 0;
  bool zero = false;
};
template<class C>
static Exact
exact(C const& v)
{
  Exact e;
  for (auto const& x : v) {
    auto l = static_cast<long double>(x);
    if (e.v.empty() || l < e.lo) {
      e.lo = l;
    }
    if (e.v.empty() || l > e.hi) {
      e.hi = l;
    }
    e.v.push_back(l);
    e.sum += l;
    (l > 0 ? e.pos : e.neg) += l;
    e.prod *= l;
    if (l != 0) {
      e.absprod *= std::fabs(l);
    } else {
      e.zero = true;
    }
    e.sq += l * l;
  }
  return e;
}

/// A result type of the reductions
template<class R, class C>
static void
reduce_to(mc::Ctx& c, C const& v, Exact const& e, char const* what)
{
  // all partial results in any order are representable
  if (fits<R>(e.pos) && fits<R>(e.neg)) {
    R s = bwsl::accumulate_sum<C, R>(v);
    MC_CHECK(c, static_cast<long double>(s) == e.sum, "sum of ", show(v), " as ", what, " is ", s);
  }
  if (fits<R>(e.absprod) && fits<R>(-e.absprod) == std::is_signed_v<R>) {
    R p = bwsl::accumulate_product<C, R>(v);
    MC_CHECK(c, static_cast<long double>(p) == e.prod, "product of ", show(v), " as ", what, " is ", p);
  }
  if (fits<R>(e.sq) && fits<R>(e.hi) && fits<R>(e.lo)) {
    R q = bwsl::sum_squared<C, R>(v);
    MC_CHECK(c, static_cast<long double>(q) == e.sq, "sum of squares of ", show(v), " as ", what, " is ", q);
  }
}

/// All the reductions of one container
template<class C>
static void
reductions(mc::Ctx& c, C const& v)
{
  using T = typename C::value_type;
  C const before(v);
  auto const e = exact(v);
  if (fits<T>(e.pos) && fits<T>(e.neg)) {
    T s = bwsl::accumulate_sum(v);
    MC_CHECK(c, static_cast<long double>(s) == e.sum, "sum of ", show(v), " is ", +s);
  }
  if (fits<T>(e.absprod) && (!std::is_signed_v<T> || fits<T>(-e.absprod))) {
    T p = bwsl::accumulate_product(v);
    MC_CHECK(c, static_cast<long double>(p) == e.prod, "product of ", show(v), " is ", +p);
  }
  if (fits<T>(e.sq)) {
    T q = bwsl::sum_squared<C, T>(v);
    MC_CHECK(c, static_cast<long double>(q) == e.sq, "sum of squares of ", show(v), " is ", +q);
    auto n = bwsl::l2norm(v);
    auto want = std::sqrt(e.sq);
    auto eps = std::is_same_v<T, float> ? 0x1p-22L : 0x1p-51L;
    MC_CHECK(c, std::fabs(n - want) <= eps * want, "norm of ", show(v), " is ", n, " expected ", static_cast<double>(want));
  }
  if (!e.v.empty()) {
    auto hi = bwsl::max(v);
    auto lo = bwsl::min(v);
    MC_CHECK(c, static_cast<long double>(hi) == e.hi, "largest of ", show(v), " is ", +hi);
    MC_CHECK(c, static_cast<long double>(lo) == e.lo, "smallest of ", show(v), " is ", +lo);
  }
  // other result types
  if constexpr (std::is_integral_v<T>) {
    if (std::is_signed_v<T>) {
      reduce_to<long>(c, v, e, "long");
      reduce_to<long long>(c, v, e, "long long");
    } else {
      reduce_to<unsigned long>(c, v, e, "unsigned long");
    }
    if (e.v.empty() || (std::fabs(e.hi) < 0x1p20L && std::fabs(e.lo) < 0x1p20L)) {
      reduce_to<float>(c, v, e, "float");
    }
  }
  if (e.v.empty() || (std::fabs(e.hi) < 0x1p53L && std::fabs(e.lo) < 0x1p53L)) {
    reduce_to<double>(c, v, e, "double");
  }
  reduce_to<long double>(c, v, e, "long double");
  MC_CHECK(c, v == before, "a reduction modified ", show(before), " into ", show(v));
  ++c.ops;
}

template<class T>
static std::vector<T>
alphabet()
{
  using L = std::numeric_limits<T>;
  if constexpr (std::is_floating_point_v<T>) {
    return { T(0), T(1), T(-1.5), T(0.25), T(3), T(-64), T(2) };
  } else if constexpr (std::is_signed_v<T>) {
    return { T(0), T(1), T(-1), T(2), T(-3), L::max(), T(L::min() + 1), T(10) };
  } else {
    return { T(0), T(1), T(2), T(3), L::max(), T(L::max() / 2), T(10) };
  }
}

/// A container out of a vector
template<class C>
static C
as(std::vector<typename C::value_type> const& v)
{
  return C(v.begin(), v.end());
}

template<class T>
static std::vector<T>
contents(mc::Ctx& c, int maxlen, size_t letters = 99)
{
  static auto const a = alphabet<T>();
  std::vector<T> v;
  auto n = c.choose(maxlen + 1);
  for (int i = 0; i < n; ++i) {
    v.push_back(a[static_cast<size_t>(c.choose(static_cast<int>(std::min(a.size(), letters))))]);
  }
  return v;
}

template<size_t N, class T>
static void
reduce_array(mc::Ctx& c, std::vector<T> const& v)
{
  if (v.size() == N) {
    std::array<T, N> a{};
    std::copy(v.begin(), v.end(), a.begin());
    reductions(c, a);
  }
}

template<class T>
static void
reduce_all(mc::Ctx& c, std::vector<T> const& v)
{
  c.note("contents ", show(v));
  reductions(c, v);
  reductions(c, as<std::list<T>>(v));
  reductions(c, as<std::deque<T>>(v));
  reductions(c, as<std::multiset<T>>(v));
  reduce_array<0>(c, v);
  reduce_array<1>(c, v);
  reduce_array<2>(c, v);
  reduce_array<3>(c, v);
  reduce_array<4>(c, v);
  mc::H h;
  h.add(static_cast<int>(sizeof(T)) * 4 + std::is_signed_v<T> * 2 + std::is_floating_point_v<T>);
  for (auto x : v) {
    h.add(static_cast<double>(x));
  }
  c.state(h);
}

#define FOR_TYPE(c, f)                                                         \
  switch ((c).choose(11)) {                                                    \
    case 0: f<int>(c); break;                                                  \
    case 1: f<long>(c); break;                                                 \
    case 2: f<unsigned>(c); break;                                             \
    case 3: f<unsigned long>(c); break;                                        \
    case 4: f<short>(c); break;                                                \
    case 5: f<unsigned short>(c); break;                                       \
    case 6: f<signed char>(c); break;                                          \
    case 7: f<unsigned char>(c); break;                                        \
    case 8: f<float>(c); break;                                                \
    case 9: f<double>(c); break;                                               \
    default: f<long double>(c); break;                                         \
  }

template<class T>
static void
small(mc::Ctx& c)
{
  reduce_all(c, contents<T>(c, mc::bound(4, 3, 6, 4)));
}
MC_FAMILY(reductions, "sum, product, squares, norm and extremes of all contents up to a length, for eleven element types, five containers and all result types that hold the results", 3)
{
  FOR_TYPE(c, small);
}

/// Long ones: few letters different from the others, at every position
template<class T>
static void
longer(mc::Ctx& c)
{
  static std::vector<T> const fill = std::is_signed_v<T> ? std::vector<T>{ T(0), T(1), T(-1) } : std::vector<T>{ T(0), T(1) };
  static auto const a = alphabet<T>();
  auto n = static_cast<size_t>(c.range(1, mc::bound(40, 18, 140, 40)));
  auto f = fill[static_cast<size_t>(c.choose(static_cast<int>(fill.size())))];
  auto x = a[static_cast<size_t>(c.choose(static_cast<int>(a.size())))];
  auto pair = c.flip();
  auto y = pair ? a[a.size() - 1] : f;
  for (size_t p = 0; p < n; ++p) {
    std::vector<T> v(n, f);
    v[p] = x;
    if (pair) {
      v[(p * 7 + n / 2) % n] = y;
    }
    reductions(c, v);
    reductions(c, as<std::list<T>>(v));
    if (c.me != nullptr) {
      c.me->checks.fetch_add(1);
    }
  }
  c.note("length ", n, " filled with ", +f, " but one ", +x, pair ? " and another" : "");
  c.state(mc::H().add(sizeof(T)).add(std::is_signed_v<T>).add(std::is_floating_point_v<T>).add(n).add(static_cast<double>(f)).add(static_cast<double>(x)).add(pair));
}
MC_FAMILY(long_ones, "reductions of long containers with one or two distinguished elements at every position", 3)
{
  FOR_TYPE(c, longer);
}

// ------------------------------------------------------------- modifying ones
template<class C>
static void
modify(mc::Ctx& c, C const& l, C const& r)
{
  using T = typename C::value_type;
  auto const L = exact(l);
  auto const R = exact(r);
  auto const n = L.v.size();
  auto same = [&](C const& got, std::vector<long double> const& want) {
    size_t i = 0;
    for (auto const& x : got) {
      if (i >= want.size() || static_cast<long double>(x) != want[i]) {
        return false;
      }
      ++i;
    }
    return i == want.size();
  };
  std::vector<long double> plus(n);
  std::vector<long double> minus(n);
  bool pok = true;
  bool mok = true;
  for (size_t i = 0; i < n; ++i) {
    plus[i] = L.v[i] + R.v[i];
    minus[i] = L.v[i] - R.v[i];
    pok = pok && fits<T>(plus[i]);
    mok = mok && fits<T>(minus[i]);
  }
  if (pok) {
    C a(l);
    C b(r);
    C& res = bwsl::sum_into(a, b);
    MC_CHECK(c, &res == &a, "sum_into does not return its first argument");
    MC_CHECK(c, same(a, plus), show(l), " plus ", show(r), " is ", show(a));
    MC_CHECK(c, b == r, "sum_into changed its right hand side ", show(r), " into ", show(b));
    // and back
    bwsl::subtract_into(a, b);
    MC_CHECK(c, a == l, "subtracting what has been added gives ", show(a), " instead of ", show(l));
  }
  if (mok) {
    C a(l);
    C b(r);
    C& res = bwsl::subtract_into(a, b);
    MC_CHECK(c, &res == &a, "subtract_into does not return its first argument");
    MC_CHECK(c, same(a, minus), show(l), " minus ", show(r), " is ", show(a));
    MC_CHECK(c, b == r, "subtract_into changed its right hand side ", show(r), " into ", show(b));
  }
  c.ops += 2;
}

template<class C>
static void
modify_one(mc::Ctx& c, C const& l)
{
  using T = typename C::value_type;
  auto const L = exact(l);
  // one container on both sides
  bool twice = true;
  for (auto x : L.v) {
    twice = twice && fits<T>(2 * x);
  }
  auto equal = [&](C const& got, long double f) {
    size_t i = 0;
    for (auto const& x : got) {
      if (i >= L.v.size()) {
        return false;
      }
      auto want = f * L.v[i++];
      if (std::is_unsigned_v<T> && want < 0) {
        want += static_cast<long double>(std::numeric_limits<T>::max()) + 1; // modular
      }
      if (static_cast<long double>(x) != want) {
        return false;
      }
    }
    return i == L.v.size();
  };
  if (twice) {
    C a(l);
    bwsl::sum_into(a, a);
    MC_CHECK(c, equal(a, 2), show(l), " plus itself is ", show(a));
  }
  {
    C a(l);
    bwsl::subtract_into(a, a);
    MC_CHECK(c, equal(a, 0), show(l), " minus itself is ", show(a));
  }
  {
    C a(l);
    C& res = bwsl::invert(a);
    MC_CHECK(c, &res == &a, "invert does not return its argument");
    MC_CHECK(c, equal(a, -1), show(l), " inverted is ", show(a));
    bwsl::invert(a);
    MC_CHECK(c, a == l, show(l), " inverted twice is ", show(a));
  }
  {
    C a(l);
    C b = bwsl::get_inverted(a);
    MC_CHECK(c, a == l, "get_inverted changed its argument ", show(l), " into ", show(a));
    MC_CHECK(c, equal(b, -1), show(l), " inverted copy is ", show(b));
    C const k(l);
    C d = bwsl::get_inverted(k);
    MC_CHECK(c, equal(d, -1) && k == l, show(l), " inverted copy of a constant is ", show(d));
    C m = bwsl::get_inverted(std::move(a));
    MC_CHECK(c, equal(m, -1), show(l), " inverted temporary is ", show(m));
  }
  c.ops += 4;
}

template<size_t N, class T>
static void
modify_array(mc::Ctx& c, std::vector<T> const& l, std::vector<T> const& r)
{
  if (l.size() == N) {
    std::array<T, N> a{};
    std::array<T, N> b{};
    std::copy(l.begin(), l.end(), a.begin());
    std::copy(r.begin(), r.end(), b.begin());
    modify(c, a, b);
    modify_one(c, a);
    modify_one(c, b);
  }
}

template<class T>
static void
modify_all(mc::Ctx& c, std::vector<T> const& l, std::vector<T> const& r)
{
  c.note("contents ", show(l), " and ", show(r));
  modify(c, l, r);
  modify(c, as<std::list<T>>(l), as<std::list<T>>(r));
  modify(c, as<std::deque<T>>(l), as<std::deque<T>>(r));
  modify_one(c, l);
  modify_one(c, as<std::list<T>>(l));
  modify_one(c, as<std::deque<T>>(l));
  modify_array<0>(c, l, r);
  modify_array<1>(c, l, r);
  modify_array<2>(c, l, r);
  modify_array<3>(c, l, r);
}

template<class T>
static void
pairs(mc::Ctx& c)
{
  static auto const a = alphabet<T>();
  auto l = contents<T>(c, mc::bound(2, 2, 3, 2));
  std::vector<T> r;
  for (size_t i = 0; i < l.size(); ++i) {
    r.push_back(a[static_cast<size_t>(c.choose(static_cast<int>(a.size())))]);
  }
  modify_all(c, l, r);
  mc::H h;
  h.add(static_cast<int>(sizeof(T)) * 4 + std::is_signed_v<T> * 2 + std::is_floating_point_v<T>);
  for (size_t i = 0; i < l.size(); ++i) {
    h.add(static_cast<double>(l[i])).add(static_cast<double>(r[i]));
  }
  c.state(h);
}
MC_FAMILY(elementwise, "adding, subtracting and inverting all contents up to a length, for eleven element types and four containers, also one container on both sides", 3)
{
  FOR_TYPE(c, pairs);
}

template<class T>
static void
long_pairs(mc::Ctx& c)
{
  auto n = static_cast<size_t>(c.range(1, mc::bound(70, 34, 300, 70)));
  std::vector<T> l(n);
  std::vector<T> r(n);
  auto step = c.range(1, 3);
  for (size_t i = 0; i < n; ++i) {
    l[i] = static_cast<T>(20 + (i * static_cast<size_t>(step)) % 17);
    r[i] = static_cast<T>((i * 5 + static_cast<size_t>(step)) % 19);
  }
  modify_all(c, l, r);
  c.state(mc::H().add(sizeof(T)).add(std::is_signed_v<T>).add(std::is_floating_point_v<T>).add(n).add(step));
}
MC_FAMILY(long_elementwise, "the same for long containers with distinct elements", 3)
{
  FOR_TYPE(c, long_pairs);
}

// Containers with more elements than narrower integers count
template<class T>
static void
big(mc::Ctx& c)
{
  auto n = static_cast<size_t>(c.pick(mc::bound<std::vector<size_t>>({ 255, 256, 257, 32768, 65536, 65537, 70001 }, { 257, 65537 }, { 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70001, 131073 }, { 257, 65537 })));
  auto p = c.pick({ size_t{ 0 }, n / 2, n - 1, n > 65536 ? size_t{ 65536 } : size_t{ 1 }, n > 256 ? size_t{ 256 } : size_t{ 2 } });
  auto kind = c.choose(3);
  std::vector<T> v(n, T(kind == 2 ? 1 : 0));
  std::vector<T> w(n, T(1));
  v[p] = T(kind == 0 ? 5 : 3);
  if (kind == 1) {
    v[(p + n / 3) % n] = T(2);
  }
  w[(p + 7) % n] = T(0);
  reductions(c, v);
  reductions(c, w);
  reductions(c, as<std::deque<T>>(v));
  modify(c, v, w);
  modify(c, as<std::list<T>>(v), as<std::list<T>>(w));
  modify_one(c, v);
  c.note(n, " elements, one of them at ", p, ", of kind ", kind);
  c.state(mc::H().add(sizeof(T)).add(std::is_signed_v<T>).add(std::is_floating_point_v<T>).add(n).add(p).add(kind));
}
MC_FAMILY(big_ones, "reductions and elementwise operations of containers of up to more than 2^17 elements", 2)
{
  switch (c.choose(4)) {
    case 0: big<int>(c); break;
    case 1: big<double>(c); break;
    case 2: big<unsigned char>(c); break;
    default: big<unsigned long>(c); break;
  }
}

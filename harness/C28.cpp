#include "mc.hpp"
#include <array>
#include <bwsl/MathUtils.hpp>
#include <cmath>
#include <deque>
#include <list>

/// The random engine is the environment: it answers with the given numbers
template<class I, I Min, I Max>
struct Script
{
  using result_type = I;
  static constexpr I min() { return Min; }
  static constexpr I max() { return Max; }
  std::vector<I> answers;
  size_t at = 0;
  I operator()()
  {
    if (answers.empty()) {
      throw std::runtime_error("unscripted draw");
    }
    // (after the end the last answer repeats)
    auto a = answers[std::min(at, answers.size() - 1)];
    ++at;
    return a;
  }
};
using E64 = Script<uint64_t, 0, ~uint64_t{ 0 }>;
using E32 = Script<uint32_t, 0, ~uint32_t{ 0 }>;
using Die = Script<unsigned, 1, 6>;

template<class C>
static std::string
show(C const& v)
{
  std::ostringstream os;
  os.precision(17);
  os << "(";
  for (auto const& x : v) {
    os << " " << x;
  }
  os << " )";
  return os.str();
}

/// What the weights say about the answer u in [0, 1) of the engine
struct Oracle
{
  std::vector<long double> w, ps;
  long double total = 0;
  bool dyadic = true; // all sums are exact in any order
  template<class C>
  explicit Oracle(C const& v)
  {
    for (auto x : v) {
      auto l = static_cast<long double>(x);
      w.push_back(l);
      total += l;
      ps.push_back(total);
      dyadic = dyadic && l * 1024 == std::floor(l * 1024) && total < 4096;
    }
  }
  template<class T>
  void check(mc::Ctx& c, long double u, size_t got, char const* what) const
  {
    MC_CHECK(c, got < w.size(), what, " of ", show(w), " is ", got, " out of range, for the random number ", static_cast<double>(u));
    MC_CHECK(c, w[got] > 0, what, " of ", show(w), " is ", got, " which has no weight, for the random number ", static_cast<double>(u));
    auto d = u * total;
    auto grid = u * 256;
    long double tol = 0;
    if (!dyadic || grid != std::floor(grid)) {
      auto n = static_cast<long double>(w.size() + 2);
      tol = n * static_cast<long double>(std::numeric_limits<T>::epsilon()) * total + 2 * static_cast<long double>(std::numeric_limits<T>::denorm_min());
    }
    auto before = got == 0 ? 0 : ps[got - 1];
    MC_CHECK(c, before <= d + tol && (tol == 0 ? d < ps[got] : d <= ps[got] + tol), what, " of ", show(w), " is ", got, " for the random number ", static_cast<double>(u));
  }
};

template<class C>
static C
psums(C const& v)
{
  C p(v);
  typename C::value_type s = 0;
  auto it = p.begin();
  for (auto x : v) {
    s += x;
    *it++ = s;
  }
  return p;
}

template<class C, class E>
static size_t
choose_one(mc::Ctx& c, C const& v, C const& p, Oracle const& o, E const& e)
{
  using T = typename C::value_type;
  E r(e);
  auto u = static_cast<long double>(std::generate_canonical<T, std::numeric_limits<T>::digits>(r));
  C const vb(v);
  C const pb(p);
  E e1(e);
  E e2(e);
  auto i = bwsl::choose_between(v, e1);
  auto j = bwsl::choose_between_psums(p, e2);
  o.template check<T>(c, u, i, "choice");
  o.template check<T>(c, u, j, "choice by partial sums");
  // (the partial sums are those of the type of the weights, from the first to the last)
  MC_CHECK(c, i == j, "choosing by weights gives ", i, " and by partial sums ", j, " of ", show(v));
  MC_CHECK(c, v == vb && p == pb, "the arguments have been modified");
  c.ops += 2;
  return i;
}

/// Extreme and special answers of a 64 bit engine
static std::vector<uint64_t> const&
extremes()
{
  static std::vector<uint64_t> const v = [] {
    std::vector<uint64_t> v{ 0, 1, 2, 1000, ~0ULL, ~0ULL - 1, ~0ULL - 1023, ~0ULL - 1024, ~0ULL - 2047, ~0ULL - 2048, ~0ULL - 4096, ~0ULL << 40, ~0ULL << 39 };
    // thirds, fifths, ... : next to the boundaries of weights that are not powers of two
    for (uint64_t d : { 3, 5, 6, 7, 9, 10, 11 }) {
      for (uint64_t k = 1; k < d; ++k) {
        auto x = static_cast<uint64_t>(static_cast<unsigned __int128>(k) * (static_cast<unsigned __int128>(1) << 64) / d);
        v.push_back(x - 4096);
        v.push_back(x);
        v.push_back(x + 4096);
      }
    }
    return v;
  }();
  return v;
}

/// All answers for one list of weights
template<class C>
static void
weights(mc::Ctx& c, C const& v)
{
  Oracle const o(v);
  auto const p = psums(v);
  // equally spaced answers
  constexpr int M = 256;
  std::vector<size_t> count(o.w.size());
  for (int k = 0; k < M; ++k) {
    E64 e{ { static_cast<uint64_t>(k) << 56 } };
    ++count[choose_one(c, v, p, o, e)];
  }
  // (an interval of length M w / total holds that many of them, up to one)
  auto slack = 1 + (o.dyadic ? 0 : M * 1e-5L * static_cast<long double>(o.w.size()));
  for (size_t i = 0; i < count.size(); ++i) {
    auto want = M * (o.w[i] / o.total);
    MC_CHECK(c, std::fabs(static_cast<long double>(count[i]) - want) <= slack, "index ", i, " of ", show(v), " is chosen ", count[i], " times of ", M, " equally spaced answers");
    if (o.dyadic && M * (o.ps[i] / o.total) == std::floor(M * (o.ps[i] / o.total)) && M * ((o.ps[i] - o.w[i]) / o.total) == std::floor(M * ((o.ps[i] - o.w[i]) / o.total))) {
      MC_CHECK(c, static_cast<long double>(count[i]) == want, "index ", i, " of ", show(v), " is chosen ", count[i], " times of ", M, " equally spaced answers");
    }
  }
  for (auto x : extremes()) {
    E64 e{ { x } };
    choose_one(c, v, p, o, e);
  }
}

template<class C>
static C
as(std::vector<double> const& v)
{
  C r;
  for (auto x : v) {
    r.push_back(static_cast<typename C::value_type>(x));
  }
  return r;
}
template<size_t N>
static void
in_array(mc::Ctx& c, std::vector<double> const& v)
{
  if (v.size() == N) {
    std::array<double, N> a{};
    std::copy(v.begin(), v.end(), a.begin());
    weights(c, a);
  }
}

static std::vector<double>
draw_weights(mc::Ctx& c, std::vector<double> const& a, int maxlen)
{
  auto n = c.range(1, maxlen);
  std::vector<double> v;
  double s = 0;
  mc::H h;
  for (int i = 0; i < n; ++i) {
    v.push_back(c.pick(a));
    s += v.back();
    h.add(v.back());
  }
  c.assume(s > 0);
  c.note("weights ", show(v));
  c.state(h);
  return v;
}

MC_FAMILY(small, "all lists of weights over an alphabet up to a length, 256 equally spaced and all special answers of the engine", 3)
{
  static std::vector<double> const a{ 1, 0, 2, 0.5, 5 };
  auto v = draw_weights(c, a, mc::bound(5, 4, 6, 5));
  switch (c.choose(4)) {
    case 0: weights(c, v); break;
    case 1: weights(c, as<std::vector<float>>(v)); break;
    case 2: weights(c, as<std::vector<long double>>(v)); break;
    default: weights(c, as<std::deque<double>>(v)); break;
  }
}
MC_FAMILY(containers, "the same in lists and arrays", 3)
{
  static std::vector<double> const a{ 1, 0, 3 };
  auto v = draw_weights(c, a, 4);
  weights(c, as<std::list<double>>(v));
  in_array<1>(c, v);
  in_array<2>(c, v);
  in_array<3>(c, v);
  in_array<4>(c, v);
}
MC_FAMILY(magnitudes, "weights without exact sums and of very different magnitudes", 3)
{
  static std::vector<double> const a{ 0.1, 0, 1e-300, 1e300, 1, 1e-17, 0.3, 0x1p-53 };
  auto v = draw_weights(c, a, mc::bound(4, 3, 5, 4));
  weights(c, v);
}
MC_FAMILY(smallest, "weights at the lower end of the range of the type", 3)
{
  static std::vector<double> const a{ 5e-324, 0, 1e-323, 2.2250738585072014e-308, 3e-320 };
  auto v = draw_weights(c, a, 4);
  // (equally spaced answers are not equally spaced in there)
  Oracle const o(v);
  auto const p = psums(v);
  for (auto x : extremes()) {
    E64 e{ { x } };
    choose_one(c, v, p, o, e);
  }
  if (std::all_of(v.begin(), v.end(), [](double x) { return x <= 1e-323; })) {
    std::vector<float> f;
    for (auto x : v) {
      f.push_back(static_cast<float>(x / 5e-324) * 1.4e-45F);
    }
    Oracle const of(f);
    auto const pf = psums(f);
    for (auto x : extremes()) {
      E64 e{ { x } };
      choose_one(c, f, pf, of, e);
    }
  }
}

MC_FAMILY(long_lists, "long lists: zeros before, between and after, every index in turn, all lengths up to a bound", 3)
{
  auto n = static_cast<size_t>(c.range(1, mc::bound(64, 20, 200, 64)));
  auto kind = c.choose(5);
  std::vector<double> v(n, 0);
  for (size_t i = 0; i < n; ++i) {
    switch (kind) {
      case 0: v[i] = 1; break;
      case 1: v[i] = i % 3 == 1 ? 1 : 0; break;
      case 2: v[i] = i >= n / 3 && i <= n / 2 ? 2 : 0; break;
      case 3: v[i] = static_cast<double>(i + 1); break;
      default: v[i] = i == 0 ? 64 : 0.25; break;
    }
  }
  if (kind == 1 && n < 2) {
    v[0] = 1;
  }
  c.note("weights ", show(v));
  weights(c, v);
  c.state(mc::H().add(n).add(kind));
}

/// Engines of other ranges need several answers for one number
MC_FAMILY(engines, "a 32 bit engine and a die: all combinations of answers over a grid", 3)
{
  static std::vector<double> const a{ 1, 0, 2, 5 };
  auto v = draw_weights(c, a, 3);
  Oracle const o(v);
  auto const p = psums(v);
  if (c.flip()) {
    static std::vector<uint32_t> const x{ 0, 1, 0x40000000, 0x55555555, 0x80000000, 0xaaaaaaaa, 0xc0000000, 0xffffffff };
    E32 e{ { c.pick(x), c.pick(x) } };
    choose_one(c, v, p, o, e);
    std::vector<float> f(v.begin(), v.end());
    choose_one(c, f, psums(f), o, e);
  } else {
    Die e;
    auto first = c.range(1, 6);
    auto second = c.range(1, 6);
    auto rest = static_cast<unsigned>(c.range(1, 6));
    for (int i = 0; i < 60; ++i) {
      e.answers.push_back(i % 3 == 0 ? static_cast<unsigned>(first) : i % 3 == 1 ? static_cast<unsigned>(second) : rest);
    }
    // (the most significant answers come last)
    choose_one(c, v, p, o, e);
  }
}

template<class E>
static void
stream(mc::Ctx& c, std::vector<double> const& v)
{
  Oracle const o(v);
  auto const p = psums(v);
  E e(static_cast<typename E::result_type>(c.choose(3)) + 1);
  E e2(e);
  for (int i = 0; i < 300; ++i) {
    E ref(e);
    auto u = static_cast<long double>(std::generate_canonical<double, 53>(ref));
    auto k = bwsl::choose_between(v, e);
    o.check<double>(c, u, k, "choice");
    auto u2 = static_cast<long double>(std::generate_canonical<double, 53>(e2));
    o.check<double>(c, u2, k, "choice along the stream");
    ++c.ops;
  }
}
MC_FAMILY(streams, "engines of the standard library, three hundred consecutive choices", 3)
{
  static std::vector<double> const a{ 1, 0, 2 };
  auto v = draw_weights(c, a, 3);
  switch (c.choose(4)) {
    case 0: stream<std::mt19937_64>(c, v); break;
    case 1: stream<std::mt19937>(c, v); break;
    case 2: stream<std::minstd_rand>(c, v); break;
    default: stream<std::ranlux24>(c, v); break;
  }
}

template<class T>
static void
with_probability(mc::Ctx& c, T prob, uint64_t x)
{
  E64 e{ { x } };
  E64 r(e);
  auto u = std::generate_canonical<T, std::numeric_limits<T>::digits>(r);
  bool got = bwsl::choose_with_probability(prob, e);
  MC_CHECK(c, prob > 0 || !got, "taken with probability ", prob);
  MC_CHECK(c, prob < 1 || got, "not taken with probability ", prob, " for the random number ", u);
  if (u != prob) {
    MC_CHECK(c, got == (u < prob), "with probability ", prob, " and the random number ", u, " the answer is ", got);
  }
  ++c.ops;
}
template<class T>
static void
all_probabilities(mc::Ctx& c)
{
  static std::vector<double> const ps{ 0, 1, 0.5, 0.25, 1.0 / 3, 0.1, 1e-10, 1e-300, 1 - 0x1p-53, 1 - 0x1p-24, 0.75, 5e-324, 1.5, -1, 2 };
  auto prob = static_cast<T>(c.pick(ps));
  c.note("probability ", prob);
  int taken = 0;
  for (int k = 0; k < 1024; ++k) {
    auto x = static_cast<uint64_t>(k) << 54;
    with_probability<T>(c, prob, x);
    E64 e{ { x } };
    taken += bwsl::choose_with_probability(prob, e) ? 1 : 0;
  }
  auto want = 1024 * std::min<long double>(1, std::max<long double>(0, prob));
  MC_CHECK(c, std::fabs(taken - want) <= 1, "taken ", taken, " times of 1024 with probability ", prob);
  if (want == std::floor(want)) {
    MC_CHECK(c, taken == want, "taken ", taken, " times of 1024 with probability ", prob);
  }
  for (auto x : extremes()) {
    with_probability<T>(c, prob, x);
  }
  c.state(mc::H().add(static_cast<double>(prob)).add(sizeof(T)));
}
MC_FAMILY(probability, "all probabilities of a list, a grid of 1024 answers and all special ones, for three floating types", 2)
{
  switch (c.choose(3)) {
    case 0: all_probabilities<double>(c); break;
    case 1: all_probabilities<float>(c); break;
    default: all_probabilities<long double>(c); break;
  }
}

MC_FAMILY(big, "lists of up to more than 2^16 weights, one of them or a few nonzero, every special answer", 3)
{
  auto n = static_cast<size_t>(c.pick({ 127, 128, 129, 255, 256, 257, 1000, 32767, 32769, 65535, 65536, 65537, 70001 }));
  auto p = c.pick({ size_t{ 0 }, n / 2, n - 1, n > 65536 ? size_t{ 65536 } : size_t{ 1 }, n > 256 ? size_t{ 256 } : size_t{ 2 } });
  auto kind = c.choose(3);
  std::vector<double> v(n, 0.0);
  v[p] = 4;
  if (kind == 1) {
    v[(p + n / 3) % n] = 4;
  } else if (kind == 2) {
    v[(p + n / 3) % n] = 2;
    v[(p + n / 2) % n] = 1;
    v[(p + 1) % n] = 1;
  }
  Oracle const o(v);
  auto const ps = psums(v);
  std::vector<float> const f(v.begin(), v.end());
  auto const fs = psums(f);
  for (int k = 0; k < 32; ++k) {
    auto x = static_cast<uint64_t>(k) << 59;
    E64 e{ { x } };
    E64 e1(e);
    E64 e2(e);
    E64 e3(e);
    E64 e4(e);
    auto u = static_cast<long double>(k) / 32;
    o.check<double>(c, u, bwsl::choose_between(v, e1), "choice");
    o.check<double>(c, u, bwsl::choose_between_psums(ps, e2), "choice by partial sums");
    o.check<float>(c, u, bwsl::choose_between(f, e3), "choice");
    o.check<float>(c, u, bwsl::choose_between_psums(fs, e4), "choice by partial sums");
    c.ops += 4;
  }
  c.note(n, " weights, the largest at ", p, ", of kind ", kind);
  c.state(mc::H().add(n).add(p).add(kind));
}

#include "lattices.hpp"
#include <complex>
using namespace lat;
using shapes::str;

struct Model
{
  std::vector<std::vector<long double>> co, si; // [momentum][site]
  Model(Def const& d, Sizes const& s)
  {
    auto sites = shapes::all_sites(s);
    auto n = sites.size();
    auto const pi = 3.14159265358979323846264338327950288L;
    co.assign(n, std::vector<long double>(n));
    si = co;
    for (size_t i = 0; i < n; ++i) {
      for (size_t j = 0; j < n; ++j) {
        // k.r / 2pi, exactly, in units of the sizes
        long double t = 0;
        for (size_t q = 0; q < s.size(); ++q) {
          auto m = (sites[i][q] - static_cast<long>(s[q] / 2)) * sites[j][q];
          t += static_cast<long double>(shapes::pmod(m, static_cast<long>(s[q]))) / static_cast<long double>(s[q]);
        }
        co[i][j] = std::cos(2 * pi * t);
        si[i][j] = std::sin(2 * pi * t);
      }
    }
  }
  template<class T>
  long double sk(size_t i, std::vector<T> const& occ) const
  {
    long double re = 0;
    long double im = 0;
    for (size_t j = 0; j < occ.size(); ++j) {
      re += co[i][j] * occ[j];
      im += si[i][j] * occ[j];
    }
    auto n = static_cast<long double>(occ.size());
    return (re * re + im * im) / (n * n);
  }
};

template<class T>
static void
check(mc::Ctx& c, Def const& d, Sizes const& s, bwsl::Lattice const& l, Model const& m, std::vector<T> const& occ, bool translate)
{
  auto n = occ.size();
  auto sites = shapes::all_sites(s);
  long double norm = 0;
  long double big = 0;
  for (auto x : occ) {
    norm += static_cast<long double>(x) * x;
    big = std::max(big, std::fabs(static_cast<long double>(x)));
  }
  auto tol = 1e-12 * static_cast<double>(1 + big * big) * static_cast<double>(1 + d.dim) * (1 + static_cast<double>(*std::max_element(s.begin(), s.end())) / 10);
  auto arg = occ;
  auto sk = l.ComputeSk(arg);
  c.op("ComputeSk");
  MC_CHECK(c, arg == occ, "the occupations are modified");
  MC_CHECK(c, sk.size() == n, d.name, str(s));
  long double sum = 0;
  for (size_t i = 0; i < n; ++i) {
    auto want = m.sk(i, occ);
    MC_CHECK(c, std::fabs(sk[i] - want) <= tol, d.name, str(s), " component ", i, " is ", sk[i], " expected ", static_cast<double>(want));
    sum += sk[i];
  }
  MC_CHECK(c, std::fabs(sum - norm / static_cast<long double>(n)) <= tol * n, d.name, str(s), " sum rule ", static_cast<double>(sum));
  for (double mult : { -0.5, 0.0, 8.0 }) {
    auto sm = l.ComputeSk(occ, mult);
    // accumulate, twice, onto something
    std::vector<double> acc(n);
    for (size_t i = 0; i < n; ++i) {
      acc[i] = static_cast<double>(i) - 1.5;
    }
    l.AccumulateSk(occ, acc, mult);
    auto acc1 = acc;
    l.AccumulateSk(occ, acc);
    c.op("AccumulateSk");
    for (size_t i = 0; i < n; ++i) {
      auto want = m.sk(i, occ);
      MC_CHECK(c, std::fabs(sm[i] - mult * want) <= 8 * tol, d.name, str(s), " multiplier ", mult, " component ", i, " is ", sm[i]);
      auto base = static_cast<double>(i) - 1.5;
      MC_CHECK(c, std::fabs(acc1[i] - (base + mult * want)) <= 9 * tol + 1e-12 * n, d.name, str(s), " accumulated ", i, " is ", acc1[i]);
      MC_CHECK(c, std::fabs(acc[i] - (base + mult * want + want)) <= 10 * tol + 1e-12 * n, d.name, str(s), " accumulated twice ", i, " is ", acc[i]);
    }
  }
  for (size_t a = 1; translate && a < n; ++a) {
    std::vector<T> moved(n);
    for (size_t j = 0; j < n; ++j) {
      auto x = sites[j];
      for (size_t q = 0; q < s.size(); ++q) {
        x[q] = (x[q] + sites[a][q]) % static_cast<long>(s[q]);
      }
      moved[shapes::site_of(x, s)] = occ[j];
    }
    auto st = l.ComputeSk(moved);
    c.op("ComputeSk of the translated occupations");
    for (size_t i = 0; i < n; ++i) {
      MC_CHECK(c, std::fabs(st[i] - sk[i]) <= 2 * tol, d.name, str(s), " translated by ", a, " component ", i);
    }
  }
  mc::H h;
  h.add(d.name).addv(s);
  for (auto x : occ) {
    h.add(static_cast<double>(x));
  }
  c.state(h);
}

/// the lattices and their models are built once per process
static std::pair<bwsl::Lattice, Model> const&
cached(Def const& d, Sizes const& s)
{
  static std::vector<std::pair<std::string, std::unique_ptr<std::pair<bwsl::Lattice, Model>>>> cache;
  auto key = d.name + str(s);
  for (auto& e : cache) {
    if (e.first == key) {
      return *e.second;
    }
  }
  if (cache.size() > 6) {
    cache.erase(cache.begin());
  }
  cache.emplace_back(key, std::make_unique<std::pair<bwsl::Lattice, Model>>(bwsl::Lattice(d.make(), s, Closed), Model(d, s)));
  return *cache.back().second;
}

MC_FAMILY(small, "all lattices, all shapes of few sites, all occupations over {0, 1, -2} and all translations", 6)
{
  auto const& d = c.pick(all());
  auto s = shapes::choose_shape(c, d.dim, 9, mc::bound<size_t>(5, 4, 7, 5));
  auto const& e = cached(d, s);
  std::vector<int> occ;
  for (size_t i = 0; i < shapes::nsites(s); ++i) {
    occ.push_back(c.pick({ 0, 1, -2 }));
  }
  check(c, d, s, e.first, e.second, occ, true);
}

MC_FAMILY(binary, "built-in lattices, all shapes, all occupations over {0, 1}", 6)
{
  auto const& d = all()[c.choose(4)];
  auto s = shapes::choose_shape(c, d.dim, 10, mc::bound<size_t>(9, 6, 12, 8));
  auto const& e = cached(d, s);
  std::vector<unsigned> occ;
  for (size_t i = 0; i < shapes::nsites(s); ++i) {
    occ.push_back(static_cast<unsigned>(c.choose(2)));
  }
  check(c, d, s, e.first, e.second, occ, false);
}

// The structure factor is a quadratic form of the occupations: it is
// determined by its values on one and on two occupied sites.
MC_FAMILY(quadratic, "all lattices, larger shapes, every single site and every pair of sites occupied (a quadratic form is determined by these)", 5)
{
  auto const& d = c.pick(all());
  auto s = shapes::choose_shape(c, d.dim, d.dim == 2 ? 9 : d.dim == 3 ? 5 : maxsize(d.dim, 30), mc::bound<size_t>(18, 9, 36, 16));
  auto const& e = cached(d, s);
  auto n = shapes::nsites(s);
  auto a = c.choose(static_cast<int>(n));
  auto b = c.choose(a + 1);
  std::vector<double> occ(n, 0.0);
  occ[a] = 1.5;
  occ[b] += 0.75;
  check(c, d, s, e.first, e.second, occ, false);
}

MC_FAMILY(types, "occupations of every arithmetic type, large and fractional values", 3)
{
  auto const& d = c.pick(all());
  auto s = d.dim == 1 ? Sizes{ 4 } : d.dim == 2 ? Sizes{ 3, 2 } : d.dim == 3 ? Sizes{ 2, 3, 1 } : Sizes(d.dim, 1);
  if (d.dim > 3) {
    s[0] = 2;
    s[d.dim - 2] = 2;
  }
  auto const& e = cached(d, s);
  auto n = shapes::nsites(s);
  auto k = static_cast<size_t>(c.choose(static_cast<int>(n)));
  auto fill = [&](auto one, auto two) {
    std::vector<decltype(one)> occ(n, one);
    occ[k] = two;
    check(c, d, s, e.first, e.second, occ, true);
  };
  switch (c.choose(15)) {
    case 9: return fill(16777217, -16777216);   // no float has these values
    case 10: return fill(16777217L, 33554433L);
    case 11: return fill(16777217.0, 16777219.0);
    case 12: return fill((1L << 31) + 1, (1L << 32) + 3); // nor an int
    case 13: return fill(4000000000U, 3999999999U);
    case 14: return fill(1.0 + 0x1p-40, 0x1p-30);
    case 0: return fill(char(1), char(100));
    case 1: return fill(static_cast<unsigned char>(1), static_cast<unsigned char>(250));
    case 2: return fill(short(-3), short(30000));
    case 3: return fill(0UL, 1000000UL);
    case 4: return fill(-1L, 1000000L);
    case 5: return fill(0.25F, 1e5F);
    case 6: return fill(1e-3, 1e6);
    case 7: return fill(0.5L, -7.0L);
    default: return fill(1000, -70000);
  }
}

MC_FAMILY(units, "all lattices in units of length of 2^-480 to 2^480 (the structure factor is a pure number), small shapes", 4)
{
  auto e = c.pick(mc::bound<std::vector<int>>(units(), { -24, 100, -400 }, units(), units()));
  auto d = scaled(c.pick(all()), e);
  auto s = shapes::choose_shape(c, d.dim, 4, mc::bound<size_t>(d.dim >= 4 ? 2 : 5, d.dim >= 4 ? 2 : 3, 6, 4));
  auto const& m = cached(d, s);
  std::vector<int> occ(shapes::nsites(s), c.pick({ 0, 1, -3 }));
  occ[0] += 2;
  occ.back() -= 1;
  check(c, d, s, m.first, m.second, occ, true);
}

MC_FAMILY(open, "open lattices: zeros, and nothing is added", 4)
{
  auto const& d = c.pick(all());
  auto s = shapes::choose_shape(c, d.dim, 6, 12);
  auto l = bwsl::Lattice(d.make(), s, Open);
  auto n = shapes::nsites(s);
  std::vector<int> occ(n, c.pick({ 0, 1, 5 }));
  auto mult = c.pick({ 1.0, -3.0 });
  auto sk = l.ComputeSk(occ, mult);
  c.op("ComputeSk open");
  MC_CHECK(c, sk.size() == n, d.name);
  std::vector<double> acc(n);
  for (size_t i = 0; i < n; ++i) {
    MC_CHECK(c, sk[i] == 0, d.name, str(s), i);
    acc[i] = 0.1 * static_cast<double>(i + 1);
  }
  auto acc0 = acc;
  l.AccumulateSk(occ, acc, mult);
  MC_CHECK(c, acc == acc0, d.name, str(s), " something is added");
  mc::H h;
  c.state(h.add(d.name).addv(s).addv(occ).add(mult));
}

MC_FAMILY(mixed, "all lattices, larger shapes: a background and one site that differs, of all small values, signs and types", 4)
{
  auto const& d = c.pick(all());
  auto s = shapes::choose_shape(c, d.dim, d.dim == 1 ? 40 : d.dim == 2 ? 7 : d.dim == 3 ? 4 : maxsize(d.dim, 30), mc::bound<size_t>(20, 12, 40, 20));
  auto n = shapes::nsites(s);
  c.assume(n > 5);
  auto const& e = cached(d, s);
  auto k = static_cast<size_t>(c.choose(3)) * (n - 1) / 2;
  auto fill = [&](auto one, auto two) {
    std::vector<decltype(one)> occ(n, one);
    occ[k] = two;
    occ[(k * 3 + 2) % n] = two;
    check(c, d, s, e.first, e.second, occ, false);
  };
  switch (c.choose(10)) {
    case 0: return fill(1, -1);
    case 1: return fill(0, -3);
    case 2: return fill(-2, 0);
    case 3: return fill(1U, 0U);
    case 4: return fill(0.5, -0.25);
    case 5: return fill(1e-4, 1e-5);
    case 6: return fill(-1e-3, 2e-6);
    case 7: return fill(0.0, 1e-5);
    case 8: return fill(-0.75F, 1.5F);
    default: return fill(static_cast<short>(-4), static_cast<short>(7));
  }
}

MC_FAMILY(large, "all lattices, chains of 41 to 140 sites, two and three dimensional shapes of up to a few hundred, some of more than 1000 sites, three occupations each", 3)
{
  auto const& d = c.pick(all());
  c.assume(d.dim <= 3);
  Sizes s;
  auto pattern = 0;
  if (c.choose(2) == 0) {
    // (dimensions of the same size or not, even and odd)
    if (d.dim == 1) {
      s = { static_cast<size_t>(c.range(41, mc::bound(140, 110, 300, 140))) };
    } else if (d.dim == 2) {
      auto a = static_cast<size_t>(c.pick({ 1, 2, 7, 8, 10, 11, 15 }));
      auto b = static_cast<size_t>(c.pick({ 8, 9, 15, 16, 17 }));
      s = { a, b };
      if (c.choose(2) == 1) {
        std::swap(s[0], s[1]);
      }
    } else {
      s = { static_cast<size_t>(c.pick({ 2, 5, 6 })), static_cast<size_t>(c.pick({ 1, 4, 5 })), static_cast<size_t>(c.pick({ 3, 4 })) };
      auto r = c.choose(3);
      std::rotate(s.begin(), s.begin() + r, s.end());
    }
    pattern = c.choose(2);
  } else {
    s = choose_big(c, d.dim, c.pick(mc::bound<std::vector<size_t>>({ 1030 }, { 300 }, { 1030, 2050 }, { 300 })));
    pattern = 2;
  }
  auto n = shapes::nsites(s);
  std::vector<double> occ(n);
  for (size_t i = 0; i < n; ++i) {
    occ[i] = pattern == 0 ? static_cast<double>(i % 7) : pattern == 1 ? (i * i % 11 < 4 ? -1.5 : 0.25) : static_cast<double>((i * 37 + i / 64) % 5);
  }
  auto const l = bwsl::Lattice(d.make(), s, Closed);
  auto const sk = l.ComputeSk(occ);
  c.op("ComputeSk");
  MC_CHECK(c, sk.size() == n, d.name, str(s));
  // all components, against a sum along one dimension after the other
  auto const pi = 3.14159265358979323846264338327950288L;
  std::vector<std::complex<long double>> f(occ.begin(), occ.end());
  for (size_t q = 0; q < d.dim; ++q) {
    auto L = s[q];
    size_t stride = 1;
    for (size_t k = q + 1; k < d.dim; ++k) {
      stride *= s[k];
    }
    std::vector<std::complex<long double>> phase(L);
    for (size_t x = 0; x < L; ++x) {
      phase[x] = std::polar(1.0L, 2 * pi * static_cast<long double>(x) / static_cast<long double>(L));
    }
    auto g = f;
    for (size_t i = 0; i < n; ++i) {
      auto at = i / stride % L;
      auto m = shapes::pmod(static_cast<long>(at) - static_cast<long>(L / 2), static_cast<long>(L));
      std::complex<long double> t = 0;
      for (size_t x = 0; x < L; ++x) {
        t += phase[static_cast<size_t>(m) * x % L] * f[i - at * stride + x * stride];
      }
      g[i] = t;
    }
    f = g;
  }
  auto const nn = static_cast<long double>(n);
  for (size_t i = 0; i < n; ++i) {
    auto want = std::norm(f[i]) / (nn * nn);
    MC_CHECK(c, std::fabs(sk[i] - want) <= 1e-9L, d.name, str(s), " component ", i, " is ", sk[i], " expected ", static_cast<double>(want));
  }
  mc::H h;
  c.state(h.add(d.name).addv(s).add(static_cast<uint64_t>(pattern)));
}

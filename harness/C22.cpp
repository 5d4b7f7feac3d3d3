#include "accs.hpp"
#include <bwsl/ObservableGroup.hpp>
#include <map>
using namespace accs;
using bwsl::ObservableGroup;

static std::string
slurp(std::string const& f)
{
  std::ifstream is(f, std::ios::binary);
  std::ostringstream os;
  os << is.rdbuf();
  return os.str();
}
static std::string
file(char const* n)
{
  return mc::scratch + "/" + n + std::to_string(getpid()) + ".csv";
}
static std::string
text(std::string const& s)
{
  return s;
}
template<class I>
static std::string
text(I i)
{
  return std::to_string(i);
}

struct Acc
{
  quad sum = 0;
  quad mag = 0;
  unsigned long n = 0;
};

template<class I>
struct Model
{
  std::map<I, Acc> acc;
  std::vector<std::string> lines; // what the file should contain: header or row
  std::vector<std::vector<Acc>> rows; // (empty for a header or foreign line)
  std::vector<size_t> precision;
  void header()
  {
    std::string h;
    for (auto const& a : acc) {
      h += text(a.first) + ",";
    }
    lines = { h + "Count" };
    rows = { {} };
    precision = { 0 };
  }
  void row(size_t p)
  {
    std::vector<Acc> r;
    for (auto& a : acc) {
      r.push_back(a.second);
      a.second = Acc();
    }
    lines.emplace_back();
    rows.push_back(r);
    precision.push_back(p);
  }
};

static void
check_number(mc::Ctx& c, std::string const& t, Acc const& a, size_t p, std::string const& row)
{
  if (a.n == 0) {
    MC_CHECK(c, t == "nan" || t == "-nan", "mean of nothing printed as '", t, "' in '", row, "'");
    return;
  }
  char* end = nullptr;
  auto got = std::strtod(t.c_str(), &end);
  auto want = a.sum / static_cast<quad>(a.n);
  MC_CHECK(c, end != nullptr && *end == 0 && !t.empty(), "'", t, "' is not a number in '", row, "'");
  // [-]d[.ddd]e[+-]dd with p digits after the point
  auto s = t[0] == '-' ? t.substr(1) : t;
  auto e = s.find('e');
  MC_CHECK(c, e != std::string::npos && s[0] >= '0' && s[0] <= '9', "'", t, "' is not in scientific form");
  auto digits = e == 1 ? 0 : e - 2;
  MC_CHECK(c, digits == p && (p == 0 || s[1] == '.'), "'", t, "' has ", digits, " digits after the point, expected ", p);
  auto exponent = std::atoi(s.c_str() + e + 1);
  quad unit = static_cast<quad>(0.5);
  for (long i = 0; i < std::labs(exponent - static_cast<long>(p)); ++i) {
    unit = exponent > static_cast<long>(p) ? unit * 10 : unit / 10;
  }
  auto n = static_cast<quad>(a.n);
  auto lim = unit * static_cast<quad>(1.0000001) + 4 * static_cast<quad>(u) * qabs(want) + 3 * static_cast<quad>(u) * a.mag / n + 4 * static_cast<quad>(u) * static_cast<quad>(u) * n * a.mag;
  MC_CHECK(c, qabs(static_cast<quad>(got) - want) <= lim, "'", t, "' printed for the mean ", static_cast<double>(want), " of ", a.n, " values in '", row, "'");
}

template<class I>
static void
check_file(mc::Ctx& c, std::string const& f, Model<I> const& m)
{
  auto s = slurp(f);
  std::vector<std::string> got;
  size_t p = 0;
  while (p < s.size()) {
    auto e = s.find('\n', p);
    MC_CHECK(c, e != std::string::npos, "the last line does not end: '", s.substr(p), "'");
    got.push_back(s.substr(p, e - p));
    p = e + 1;
  }
  MC_CHECK(c, got.size() == m.lines.size(), got.size(), " lines in the file, expected ", m.lines.size(), ": '", s, "'");
  for (size_t i = 0; i < got.size(); ++i) {
    if (!m.lines[i].empty()) {
      MC_CHECK(c, got[i] == m.lines[i], "line ", i, " is '", got[i], "' expected '", m.lines[i], "'");
      continue;
    }
    std::vector<std::string> t{ "" };
    for (auto ch : got[i]) {
      if (ch == ',') {
        t.emplace_back();
      } else {
        t.back() += ch;
      }
    }
    auto const& r = m.rows[i];
    MC_CHECK(c, t.size() == r.size() + 1, "row '", got[i], "' of ", r.size(), " observables");
    for (size_t k = 0; k < r.size(); ++k) {
      check_number(c, t[k], r[k], m.precision[i], got[i]);
    }
    auto count = r.empty() ? 0UL : r[0].n;
    MC_CHECK(c, t.back() == std::to_string(count), "row '", got[i], "' expected the count ", count);
  }
}

template<class I>
static void
measure(mc::Ctx& c, ObservableGroup<I>& g, Model<I>& m, I const& k, double x)
{
  c.op("Measure ", text(k), " ", x);
  auto before = save(g);
  bool thrown = false;
  try {
    g.Measure(k, x);
  } catch (std::exception const&) {
    thrown = true;
  }
  MC_CHECK(c, thrown == (m.acc.count(k) == 0), "measuring '", text(k), "' ", thrown ? "throws" : "does not throw");
  if (thrown) {
    MC_CHECK(c, save(g) == before, "a refused measurement changed the group");
  } else {
    auto& a = m.acc[k];
    a.sum += x;
    a.mag += std::fabs(x);
    ++a.n;
  }
}

/// one step with the keys and values; the file is compared after every print
template<class I>
static void
step(mc::Ctx& c, ObservableGroup<I>& g, Model<I>& m, std::string const& f, std::vector<I> const& keys, std::vector<double> const& values, std::vector<size_t> const& precisions)
{
  auto nk = static_cast<int>(keys.size());
  auto nv = static_cast<int>(values.size());
  auto np = static_cast<int>(precisions.size());
  auto k = c.choose(nk + nk * nv + 1 + np);
  if (k < nk) {
    c.op("AddObservable ", text(keys[static_cast<size_t>(k)]));
    auto& r = g.AddObservable(keys[static_cast<size_t>(k)]);
    MC_CHECK(c, &r == &g, "AddObservable returns another group");
    m.acc[keys[static_cast<size_t>(k)]];
    return;
  }
  k -= nk;
  if (k < nk * nv) {
    measure(c, g, m, keys[static_cast<size_t>(k / nv)], values[static_cast<size_t>(k % nv)]);
    return;
  }
  k -= nk * nv;
  if (k == 0) {
    c.op("PrintHeaders");
    g.PrintHeaders();
    m.header();
  } else {
    auto p = precisions[static_cast<size_t>(k - 1)];
    c.op("PrintAndReset ", p);
    if (p == 10) {
      g.PrintAndReset();
    } else {
      g.PrintAndReset(p);
    }
    m.row(p);
  }
  check_file(c, f, m);
}

template<class I>
static mc::H
hash(Model<I> const& m)
{
  mc::H h;
  for (auto const& a : m.acc) {
    h.add(text(a.first)).add(static_cast<double>(a.second.sum)).add(a.second.n);
  }
  for (auto const& r : m.rows) {
    h.add(r.size());
    for (auto const& a : r) {
      h.add(static_cast<double>(a.sum)).add(a.n);
    }
  }
  return h;
}

template<class I>
static void
run(mc::Ctx& c, int depth, std::vector<I> const& keys, std::vector<I> const& first, std::vector<double> const& values, std::vector<size_t> const& precisions)
{
  auto f = file("g");
  ::unlink(f.c_str());
  Model<I> m;
  if (c.flip()) { // something else is in the file
    std::ofstream(f) << "old line\n";
    m.lines = { "old line" };
    m.rows = { {} };
    m.precision = { 0 };
  }
  bool given = c.flip();
  auto g = given ? ObservableGroup<I>(f, first) : ObservableGroup<I>(f);
  if (given) {
    for (auto const& k : first) {
      m.acc[k];
    }
  }
  for (int i = 0; i < depth; ++i) {
    step(c, g, m, f, keys, values, precisions);
    c.state(hash(m));
  }
  // and whatever is still in the accumulators
  g.PrintAndReset(6);
  m.row(6);
  check_file(c, f, m);
}

MC_FAMILY(histories, "all histories of adding, measuring (known and unknown), printing headers and results; the whole file after every print", 4)
{
  run<std::string>(c, mc::bound(4, 3, 5, 4), { "b", "a", "c" }, { "b", "c" }, { 0.1, -1234.5 }, { 10, 2 });
}

MC_FAMILY(deep, "longer histories of two observables", 5)
{
  run<std::string>(c, mc::bound(6, 4, 7, 5), { "x", "y" }, { "y" }, { 2.5 }, { 10 });
}

MC_FAMILY(integers, "observables numbered by integers, in numerical order", 4)
{
  run<int>(c, mc::bound(4, 3, 4, 4), { 10, 9, -1 }, { 10, 10, 9 }, { 1e-7, 3e300 }, { 3 });
}

MC_FAMILY(unsigned_integers, "observables numbered by unsigned integers", 4)
{
  run<unsigned long>(c, mc::bound(3, 3, 4, 4), { 5000000000UL, 2, 100 }, { 100 }, { 1.0, 1e16 }, { 17, 0 });
}

MC_FAMILY(names, "names with blanks, braces, percent signs, of any length", 3)
{
  static std::vector<std::string> const n{ "{}", "two words", "", "100%s", std::string(200, 'n'), "\xc3\xa9nergie", "{0:d}", "#", "Count" };
  auto a = c.pick(n);
  auto b = c.pick(n);
  run<std::string>(c, 2, { a, b }, { b, a }, { 7.0 }, { 10 });
}

MC_FAMILY(precisions, "every precision from 0 to 25 for numbers of any magnitude", 2)
{
  auto p = static_cast<size_t>(c.choose(26));
  auto x = c.pick({ 0.0, 0.1, -1.0 / 3, 1e300, -1e-300, 123456789.987654321, 9.9999999999, 5e-324, 0.5, 1.25e308 });
  auto f = file("p");
  ::unlink(f.c_str());
  ObservableGroup<std::string> g(f, { "x", "y" });
  Model<std::string> m;
  m.acc["x"];
  m.acc["y"];
  measure<std::string>(c, g, m, "x", x);
  g.PrintHeaders();
  m.header();
  g.PrintAndReset(p);
  m.row(p);
  check_file(c, f, m);
  c.state(hash(m).add(p));
}

MC_FAMILY(two_groups, "two groups with their own files, and two groups that share one, interleaved in every way", 4)
{
  bool shared = c.flip();
  auto f = file("s");
  auto f2 = shared ? f : file("t");
  ::unlink(f.c_str());
  ::unlink(f2.c_str());
  ObservableGroup<std::string> g[2] = { ObservableGroup<std::string>(f, { "a" }), ObservableGroup<std::string>(f2, { "a", "b" }) };
  Model<std::string> m[2];
  m[0].acc["a"];
  m[1].acc["a"];
  m[1].acc["b"];
  for (int i = 0; i < mc::bound(5, 4, 6, 5); ++i) {
    auto k = c.choose(2);
    auto& r = m[k];
    switch (c.choose(3)) {
      case 0: measure<std::string>(c, g[k], r, "a", 0.5 + i); break;
      case 1:
        c.op("PrintHeaders of ", k);
        g[k].PrintHeaders();
        r.header();
        if (shared) {
          m[1 - k].lines = r.lines;
          m[1 - k].rows = r.rows;
          m[1 - k].precision = r.precision;
        }
        break;
      default:
        c.op("PrintAndReset of ", k);
        g[k].PrintAndReset();
        r.row(10);
        if (shared) {
          m[1 - k].lines = r.lines;
          m[1 - k].rows = r.rows;
          m[1 - k].precision = r.precision;
        }
        break;
    }
    check_file(c, f, m[0]);
    check_file(c, f2, m[1]);
    c.state(hash(m[0]).add(hash(m[1]).h));
  }
}

MC_FAMILY(long_histories, "tens of thousands of measurements, hundreds of prints, tens of thousands of observables", 3)
{
  auto f = file("l");
  ::unlink(f.c_str());
  auto n = c.pick({ 1, 7, 255, 256, 257, 300, 65537 });
  auto per = c.pick({ 1, 3, 1000, 140001 });
  auto prints = c.pick({ 1, 60, 300 });
  c.assume(n <= 300 || prints == 1);
  c.assume(prints == 1 || per <= (prints == 60 ? 1000 : 3));
  ObservableGroup<int> g(f);
  Model<int> m;
  for (int i = 0; i < n; ++i) {
    g.AddObservable(i * 7 % n);
    m.acc[i * 7 % n];
  }
  g.PrintHeaders();
  m.header();
  c.op(n, " observables, ", per, " measurements, ", prints, " prints");
  for (int p = 0; p < prints; ++p) {
    for (int i = 0; i < per; ++i) {
      auto k = (i * 13 + p) % n;
      if (m.acc.count(k) == 1) {
        auto x = 0.1 * i - p;
        g.Measure(k, x);
        auto& a = m.acc[k];
        a.sum += x;
        a.mag += std::fabs(x);
        ++a.n;
      }
    }
    g.PrintAndReset(8);
    m.row(8);
    if (c.me != nullptr) {
      c.me->checks.fetch_add(1);
    }
  }
  check_file(c, f, m);
  c.state(hash(m));
}

MC_FAMILY(long_names, "names of up to 2^17 characters, headers longer than any buffer", 3)
{
  auto n = static_cast<size_t>(c.pick({ 1, 127, 128, 255, 256, 257, 499, 500, 501, 1000, 4095, 4096, 4097, 65535, 65536, 65537, 140000 }));
  auto m = static_cast<size_t>(c.pick({ 0, 250, 70000 }));
  auto f = file(m == 250 ? std::string(static_cast<size_t>(200), 'f').c_str() : "n");
  ::unlink(f.c_str());
  ObservableGroup<std::string> g(f);
  Model<std::string> o;
  for (auto const& k : { std::string(n, 'x'), std::string(n, 'x') + "y", std::string(m, 'a') + "b" }) {
    g.AddObservable(k);
    o.acc[k];
  }
  g.PrintHeaders();
  o.header();
  check_file(c, f, o);
  for (int i = 0; i < 2; ++i) {
    for (auto& a : o.acc) {
      auto x = static_cast<double>(a.first.size()) + i;
      g.Measure(a.first, x);
      a.second.sum += x;
      a.second.mag += x;
      ++a.second.n;
    }
    g.PrintAndReset(17);
    o.row(17);
    check_file(c, f, o);
  }
  c.op("names of ", n, " and ", m, " characters");
  ::unlink(f.c_str());
  c.state(hash(o).add(m));
}

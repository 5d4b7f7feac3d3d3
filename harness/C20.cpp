#include "subjects.hpp"
#include <memory>
using namespace subj;

/// Archives: text and binary, alone or behind other objects
enum Format
{
  Text,
  Binary,
  Formats
};

template<class OA, class T>
static std::string
write(T const& x, bool embedded)
{
  std::ostringstream os(std::ios::binary);
  {
    OA oa(os);
    if (embedded) {
      std::string const before("other data 1 2 3");
      bwsl::accumulators::KahanAccumulator k;
      k.Add(3);
      oa << before << k << x << k << before;
    } else {
      oa << x;
    }
  }
  return os.str();
}
template<class IA, class T>
static void
read(mc::Ctx& c, std::string const& s, T& x, bool embedded)
{
  std::istringstream is(s, std::ios::binary);
  IA ia(is);
  if (embedded) {
    std::string before;
    bwsl::accumulators::KahanAccumulator k;
    bwsl::accumulators::KahanAccumulator k2;
    ia >> before >> k >> x >> k2 >> before;
    MC_CHECK(c, before == "other data 1 2 3" && k.Count() == 1 && k2.Count() == 1 && k2.Sum() == 3, "what is saved around the object is read wrongly");
  } else {
    ia >> x;
  }
}
template<class T>
static std::string
write(Format f, T const& x, bool embedded)
{
  return f == Text ? write<boost::archive::text_oarchive>(x, embedded) : write<boost::archive::binary_oarchive>(x, embedded);
}
template<class T>
static void
read(mc::Ctx& c, Format f, std::string const& s, T& x, bool embedded)
{
  f == Text ? read<boost::archive::text_iarchive>(c, s, x, embedded) : read<boost::archive::binary_iarchive>(c, s, x, embedded);
}

template<class S>
static void
history(mc::Ctx& c, int prefix, int rest, bool used_histories)
{
  using T = typename S::T;
  auto start = c.choose(S::starts);
  auto a = S::make(start);
  auto a2 = S::make(start); // never saved
  c.op(S::name, " start ", start);
  auto same_as = [&](T const& x, T const& y, char const* what) {
    auto p = look<S>(x);
    auto q = look<S>(y);
    MC_CHECK(c, p == q, S::name, ": ", what, ": ", p.str(), " expected ", q.str());
  };
  auto n = c.choose(prefix + 1);
  for (int i = 0; i < n; ++i) {
    auto k = c.choose(S::ops);
    auto x = S::op(a, k);
    auto y = S::op(a2, k);
    c.op(x);
    MC_CHECK(c, x == y, "histories differ");
  }
  // save
  auto format = static_cast<Format>(c.choose(Formats));
  bool embedded = c.flip();
  auto before = look<S>(a);
  auto s = write(format, a, embedded);
  c.op("save as ", format, " -> ", s.size(), " bytes");
  auto after = look<S>(a);
  MC_CHECK(c, before == after, S::name, ": saving changed ", before.str(), " to ", after.str());
  MC_CHECK(c, write(format, a, embedded) == s, S::name, ": saving twice gives different archives");
  // restore into a fresh or a used object
  int how = c.choose(used_histories ? 4 : 2);
  auto r = S::make(how == 0 ? 0 : S::starts - 1);
  if (how > 0) {
    for (int i = 0; i < (how == 1 ? 5 : 2); ++i) {
      S::op(r, how == 3 && i == 0 ? c.choose(S::ops) : (i * 3 + how) % S::ops);
    }
  }
  read(c, format, s, r, embedded);
  c.op("restore into ", how == 0 ? "a fresh object" : "a used object");
  same_as(r, a, "the restored object differs");
  same_as(a, a2, "saving changed the object");
  mc::H h;
  before.hash(h);
  c.state(h.add(std::string(S::name)));
  // and a restored object can be saved again
  {
    auto t = S::make(0);
    read(c, format, write(format, r, embedded), t, embedded);
    same_as(t, a, "the object restored twice differs");
  }
  for (int i = 0; i < rest; ++i) {
    auto k = c.choose(S::ops);
    auto x = S::op(r, k);
    auto y = S::op(a, k);
    auto z = S::op(a2, k);
    c.op(y);
    MC_CHECK(c, x == y, S::name, ": operation ", k, " on the restored object: '", x, "' expected '", y, "'");
    MC_CHECK(c, z == y, S::name, ": operation ", k, " on the saved object: '", y, "' expected '", z, "'");
    same_as(r, a, "the restored object continues differently");
    same_as(a, a2, "the saved object continues differently");
  }
}

#define TYPE(N, S, p, ps, r, rs)                                               \
  MC_FAMILY(N, "all histories, saved at every point in every format, restored into fresh and used objects, and all continuations", 4) \
  {                                                                            \
    history<S>(c, mc::bound(p, ps, p + 1, ps + 1), mc::bound(r, rs, r + 1, rs + 1), true); \
  }
TYPE(kahan, Kahan, 3, 2, 2, 1)
TYPE(neumaier, Neumaier, 3, 2, 2, 1)
TYPE(welford, Welford, 3, 2, 2, 1)
TYPE(west, West, 3, 2, 2, 1)
TYPE(naive_integer, Naive, 3, 2, 2, 1)
TYPE(histogram, Hist, 2, 2, 2, 1)
TYPE(statistics, Stats, 2, 2, 2, 1)
TYPE(group, Group, 2, 1, 1, 1)
TYPE(integer_group, IntGroup, 2, 1, 1, 1)

template<class S>
static void
files(mc::Ctx& c)
{
  using T = typename S::T;
  auto a = S::make(c.choose(S::starts));
  for (int i = 0; i < 3; ++i) {
    c.op(S::op(a, c.choose(S::ops)));
  }
  auto s = write(Text, a, false);
  T r;
  if (c.flip()) {
    r = S::make(1);
    S::op(r, 0);
    S::op(r, 4);
  }
  read(c, Text, s, r, false);
  auto x = S::file(r);
  auto y = S::file(a);
  MC_CHECK(c, x == y, "the restored group prints '", x, "' expected '", y, "'");
  mc::H h;
  c.state(h.add(y));
}

MC_FAMILY(group_files, "restored observable groups print the same file, under the same name, as the saved ones", 3)
{
  c.flip() ? files<Group>(c) : files<IntGroup>(c);
}

// Names of files and observables are any text
MC_FAMILY(group_names, "groups whose file and observables have names with blanks, separators, line ends, zero bytes, no or very many characters", 3)
{
  static std::vector<std::string> const files{ "plain.csv", "two words.csv", "  two blanks at the ends  ", "tab\tand\nline end", "a,b;c#d'e\"f", "\xc3\xa4\xff.csv", std::string(200, 'n'), "1 2 3", "." + std::string(40, ' ') + "x" };
  static std::vector<std::string> const keys{ "energy", "", " ", "two words", "  ends  ", "line\nend", std::string("zero\0byte", 9), "a,b", "1", std::string(70000, 'k'), "\xff\x01\t" };
  auto const& file = c.pick(files);
  auto const& first = c.pick(keys);
  auto const& second = c.pick(keys);
  auto format = static_cast<Format>(c.choose(Formats));
  auto embedded = c.flip();
  auto fn = mc::scratch + "/" + std::to_string(getpid()) + "-" + file;
  using G = bwsl::ObservableGroup<std::string>;
  G a(fn, { first, second });
  a.Measure(first, 0.1);
  a.Measure(second, 7);
  a.Measure(first, -2.5);
  auto s = write(format, a, embedded);
  auto r = c.flip() ? G(group_file(), { "other", "z" }) : G("", {});
  try {
    read(c, format, s, r, embedded);
  } catch (std::exception const& e) {
    mc::fail("the group of file '", file, "' and '", first.substr(0, 40), "', '", second.substr(0, 40), "' is not restored: ", e.what());
  }
  auto print = [&](G& g) {
    ::unlink(fn.c_str());
    g.PrintHeaders();
    g.PrintAndReset(17);
    g.Measure(second, 3);
    g.PrintAndReset(17);
    auto t = slurp(fn);
    ::unlink(fn.c_str());
    return t;
  };
  auto want = print(a);
  auto got = print(r);
  c.op("file '", file, "', observables '", first.substr(0, 20), "', '", second.substr(0, 20), "'");
  MC_CHECK(c, !want.empty(), "nothing is printed to '", file, "'");
  MC_CHECK(c, got == want, "file '", file, "', observables '", first.substr(0, 20), "', '", second.substr(0, 20), "': the restored group prints '", got.substr(0, 300), "' expected '", want.substr(0, 300), "'");
  mc::H h;
  c.state(h.add(file).add(first).add(second).add(static_cast<int>(format)));
}

// All numbers survive the archive exactly
MC_FAMILY(numbers, "sums of numbers of any magnitude survive every format exactly", 2)
{
  double v[] = { 0.1, 1e300, -1e300, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, -0.0, 1.0 / 3, 9007199254740993.0, 1e22, 123456789.123456789, 1e-5 };
  auto format = static_cast<Format>(c.choose(Formats));
  auto x = v[c.choose(12)];
  auto y = v[c.choose(12)];
  auto f = [&](auto subject) {
    using S = decltype(subject);
    auto a = S::make(0);
    if constexpr (std::is_same_v<S, West>) {
      a.Add(x, 0.1);
      a.Add(y, 1e-3);
    } else if constexpr (std::is_same_v<S, Hist>) {
      a.ForceAdd(0, x);
      a.ForceAdd(1, y);
    } else {
      a.Add(x);
      a.Add(y);
    }
    auto o = look<S>(a);
    auto r = S::make(0);
    for (auto z : o.v) {
      if (!std::isfinite(z)) {
        return; // the sum is not representable
      }
    }
    read(c, format, write(format, a, false), r, false);
    MC_CHECK(c, look<S>(r) == o, S::name, " of ", x, " and ", y, ": ", look<S>(r).str(), " expected ", o.str());
    mc::H h;
    o.hash(h);
    c.state(h.add(std::string(S::name)));
    c.op(S::name, " ", x, " ", y);
  };
  f(Kahan());
  f(Neumaier());
  f(Welford());
  f(West());
  f(Hist());
}

// Counts that do not fit 32 bits: edit the text of a saved object, restore it
// and send it through every format once more.
template<class S>
static void
counted(mc::Ctx& c, unsigned long n)
{
  auto a = S::make(0);
  for (int i = 0; i < 997; ++i) {
    S::op(a, i % 2);
  }
  if (!accs::set_count(a, 997, n)) {
    c.op("no such state");
    return;
  }
  auto o = look<S>(a);
  MC_CHECK(c, a.Count() == n, S::name, " restored with a count of ", n, " counts ", a.Count());
  for (auto f : { Text, Binary }) {
    auto r = S::make(0);
    S::op(r, 0);
    read(c, f, write(f, a, true), r, true);
    MC_CHECK(c, look<S>(r) == o, S::name, " with a count of ", n, ": ", look<S>(r).str(), " expected ", o.str());
    auto b = a;
    S::op(r, 1);
    S::op(b, 1);
    MC_CHECK(c, r.Count() == n + 1 && look<S>(r) == look<S>(b), S::name, " with a count of ", n, " continues differently");
  }
  c.op(S::name, " count ", n);
  mc::H h;
  o.hash(h);
  c.state(h.add(n).add(std::string(S::name)));
}
MC_FAMILY(large_counts, "counts up to 2^63 in every format", 2)
{
  auto n = c.pick({ 2147483648UL, 4294967295UL, 4294967296UL, 4294968293UL, 1UL << 40, (1UL << 53) + 1, (1UL << 63) - 5 });
  switch (c.choose(4)) {
    case 0: counted<Kahan>(c, n); break;
    case 1: counted<Neumaier>(c, n); break;
    case 2: counted<Welford>(c, n); break;
    default: counted<West>(c, n); break;
  }
  c.state(mc::H().add(n));
}

MC_FAMILY(integer_extremes, "integer accumulators with sums near the limits in every format", 2)
{
  auto x = c.pick({ 0L, 3037000499L, -3037000499L, 2147483648L, -2147483649L });
  auto format = static_cast<Format>(c.choose(Formats));
  bwsl::NaiveInteger a;
  a.Add(x);
  if (c.flip()) {
    a.Add(1);
  }
  bwsl::NaiveInteger r;
  r.Add(5);
  read(c, format, write(format, a, false), r, false);
  c.op("integer ", x);
  MC_CHECK(c, look<Naive>(r) == look<Naive>(a), "restored ", look<Naive>(r).str(), " expected ", look<Naive>(a).str());
  c.state(mc::H().add(x).add(static_cast<int>(format)));
}

// Big histograms and groups
MC_FAMILY(big, "histograms of up to hundreds of thousands of bins", 2)
{
  auto n = c.pick({ 1, 100, 127, 128, 255, 256, 257, 3000, 32767, 32768, 65535, 65536, 65537, 70001, 131073 });
  auto format = static_cast<Format>(c.choose(Formats));
  bwsl::HistAccumulator a(static_cast<size_t>(n));
  for (int i = 0; i < n; i += 1 + i / 7) {
    a.Add(static_cast<size_t>(i), 0.1 * i - 3);
  }
  bwsl::HistAccumulator r(c.pick({ 0UL, 50UL, 5000UL, 70000UL }));
  read(c, format, write(format, a, true), r, true);
  c.op(n, " bins");
  MC_CHECK(c, r.GetNbins() == a.GetNbins() && r.GetCount() == a.GetCount() && r.GetResults() == a.GetResults(), n, " bins are restored differently");
  for (size_t i = 0; i < a.GetNbins(); ++i) {
    MC_CHECK(c, r.GetCount(i) == a.GetCount(i), "count of bin ", i);
  }
  r.ForceAdd(static_cast<size_t>(n) + 3, 1.0);
  MC_CHECK(c, r.GetNbins() == static_cast<size_t>(n) + 4 && r.GetCount(static_cast<size_t>(n)) == 0, "growing a restored histogram");
  c.state(mc::H().add(n).add(r.GetCount()));
}

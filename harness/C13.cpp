#include "rat.hpp"
#include <bwsl/Exceptions.hpp>
#include <sstream>
using namespace rat;

enum Verdict { Reject, Accept, DontCare };

/// Boring parser of  [sign]digits//[sign]digits  with anything behind.  White
/// space before a token may be skipped or refused.
template<class T>
static Verdict
parse(std::string const& s, M& out, size_t& end)
{
  size_t p = 0;
  bool white = false;
  auto ws = [&] {
    while (p < s.size() && std::isspace(static_cast<unsigned char>(s[p])) != 0) {
      ++p;
      white = true;
    }
  };
  auto integer = [&](I& v) {
    ws();
    bool neg = false;
    if (p < s.size() && (s[p] == '+' || s[p] == '-')) {
      neg = s[p] == '-';
      ++p;
    }
    if (p >= s.size() || s[p] < '0' || s[p] > '9') {
      return false;
    }
    v = 0;
    while (p < s.size() && s[p] >= '0' && s[p] <= '9') {
      if (v < (I(1) << 100)) {
        v = v * 10 + (s[p] - '0');
      }
      ++p;
    }
    if (neg) {
      v = -v;
    }
    return v <= static_cast<I>(std::numeric_limits<T>::max()) && v >= static_cast<I>(std::numeric_limits<T>::min());
  };
  I n = 0;
  I d = 0;
  if (!integer(n)) {
    return Reject;
  }
  for (int k = 0; k < 2; ++k) {
    ws();
    if (p >= s.size() || s[p] != '/') {
      return Reject;
    }
    ++p;
  }
  if (!integer(d) || !representable<T>(n, d)) {
    return Reject;
  }
  out = M(n, d);
  end = p;
  return white ? DontCare : Accept;
}

static std::string
quote(std::string const& s)
{
  return "'" + mc::esc(s) + "'";
}

template<class T>
static void
text(mc::Ctx& c, std::string const& s)
{
  M m;
  size_t end = 0;
  auto v = parse<T>(s, m, end);
  auto const before = bwsl::RationalNum<T>(-7, 5);
  auto const mbefore = M(-7, 5);
  {
    auto r = before;
    bool thrown = false;
    try {
      FromString(s, r);
    } catch (bwsl::exception::BadParsing const& e) {
      thrown = true;
      MC_CHECK(c, e.what() != nullptr, "no message");
    }
    MC_CHECK(c, v == DontCare || thrown == (v == Reject), "FromString ", quote(s), (thrown ? " is refused" : " is accepted as "), (thrown ? "" : str(r)));
    MC_CHECK(c, same(r, thrown ? mbefore : m), "FromString ", quote(s), (thrown ? " is refused and leaves " : " yields "), str(r), " expected ", str(thrown ? mbefore : m));
  }
  {
    auto r = before;
    std::istringstream in(s);
    in >> r;
    auto bad = in.fail();
    MC_CHECK(c, v == DontCare || bad == (v == Reject), ">> ", quote(s), (bad ? " fails" : " is accepted as "), (bad ? "" : str(r)));
    MC_CHECK(c, same(r, bad ? mbefore : m), ">> ", quote(s), (bad ? " fails and leaves " : " yields "), str(r));
    if (v == Accept && !bad) {
      // what follows is still there
      in.clear();
      std::string rest((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
      MC_CHECK(c, rest == s.substr(end), ">> ", quote(s), " leaves ", quote(rest));
    }
  }
  c.op("read ", quote(s), " -> ", static_cast<int>(v));
}

template<class T>
static void
roundtrip(mc::Ctx& c, T n, T d)
{
  auto const r = bwsl::RationalNum<T>(n, d);
  auto m = M(n, d);
  auto want = str(r);
  auto s = ToString(r);
  std::ostringstream os;
  os << r;
  MC_CHECK(c, s == want, "ToString of ", want, " is ", quote(s));
  MC_CHECK(c, os.str() == want, "<< of ", want, " is ", quote(os.str()));
  auto back = bwsl::RationalNum<T>(1, 1);
  FromString(s, back);
  MC_CHECK(c, same(back, m), quote(s), " comes back as ", str(back));
  std::istringstream is(os.str());
  auto back2 = bwsl::RationalNum<T>(3, 2);
  is >> back2;
  MC_CHECK(c, !is.fail() && same(back2, m), quote(os.str()), " comes back as ", str(back2));
  c.op("round trip ", s);
}

template<class T>
static void
box(mc::Ctx& c)
{
  long const N = mc::bound(120, 40, 300, 100);
  auto n = static_cast<T>(c.range(-N, N));
  for (long d = -N; d <= N; ++d) {
    if (d != 0) {
      roundtrip<T>(c, n, static_cast<T>(d));
      // the text of an unsimplified quotient
      text<T>(c, std::to_string(n) + "//" + std::to_string(d));
    }
  }
  mc::H h;
  c.state(h.add(static_cast<uint64_t>(n)));
}
MC_FAMILY(box_long, "all numerators and denominators in a box (long)", 1) { box<long>(c); }
MC_FAMILY(box_short, "the same for short", 1) { box<short>(c); }
MC_FAMILY(box_long_long, "the same for long long", 1) { box<long long>(c); }
MC_FAMILY(box_int, "all numerators and denominators in a box (int)", 1) { box<int>(c); }

template<class T>
static void
edge_all(mc::Ctx& c)
{
  static auto const num = edges<T>(true);
  auto n = c.pick(num);
  for (auto d : num) {
    if (representable<T>(n, d)) {
      roundtrip<T>(c, n, d);
    }
    text<T>(c, std::to_string(n) + "//" + std::to_string(d));
  }
  mc::H h;
  c.state(h.add(static_cast<uint64_t>(n)));
}
MC_FAMILY(edges_long, "numbers around powers of two and the largest number (long)", 1) { edge_all<long>(c); }
MC_FAMILY(edges_short, "the same for short", 1) { edge_all<short>(c); }
MC_FAMILY(edges_long_long, "the same for long long", 1) { edge_all<long long>(c); }
MC_FAMILY(edges_int, "the same for int", 1) { edge_all<int>(c); }

template<class T>
static void
strings(mc::Ctx& c, std::string const& alphabet, int maxlen)
{
  std::string s;
  for (int k = 0; k < maxlen; ++k) {
    auto i = c.choose(static_cast<int>(alphabet.size()) + 1);
    if (i == 0) {
      break;
    }
    s += alphabet[i - 1];
  }
  text<T>(c, s);
  M m;
  size_t e = 0;
  mc::H h;
  auto v = parse<T>(s, m, e);
  c.state(h.add(static_cast<uint64_t>(v)).add(static_cast<uint64_t>(m.n)).add(static_cast<uint64_t>(m.d)).add(s.size()));
}
MC_FAMILY(strings_long, "all strings over '/', '-', '2', '0', '6', 'x' and blank up to a length", 4)
{
  strings<long>(c, "/-206x ", mc::bound(7, 5, 8, 6));
}
MC_FAMILY(strings_int, "all strings over '/', '+', '-', '4', '0', '.' up to a length", 4)
{
  strings<int>(c, "/+-40.", mc::bound(7, 5, 8, 6));
}

MC_FAMILY(mutants, "valid texts with every character inserted, replaced or deleted at every place", 3)
{
  std::vector<std::string> const base{ "12//34", "-3//8", "0//5", "7//-21", "+5//+6", "9223372036854775807//2", "1//9223372036854775807", "2147483647//3", "-9223372036854775808//-1", "100//10 " };
  auto s = c.pick(base);
  auto at = static_cast<size_t>(c.choose(static_cast<int>(s.size()) + 1));
  auto kind = c.choose(3);
  c.assume(kind == 0 || at < s.size());
  mc::H h;
  c.state(h.add(s).add(at).add(static_cast<uint64_t>(kind)));
  for (int ch = 0; ch < 256; ++ch) {
    auto t = s;
    if (kind == 0) {
      t.insert(at, 1, static_cast<char>(ch));
    } else if (kind == 1) {
      t[at] = static_cast<char>(ch);
    } else {
      t.erase(at, 1);
    }
    // digits next to the largest number with a sign are not in the domain of Simplify
    text<long>(c, t);
    if (s.size() < 12) {
      text<int>(c, t);
    }
    if (kind == 2) {
      break;
    }
  }
}

MC_FAMILY(overflow, "numbers that do not fit are refused on either side, the largest ones are accepted", 2)
{
  std::vector<std::string> const nums{ "2147483646", "2147483647", "2147483648", "-2147483647", "-2147483649", "4294967296", "4294967297",
                                       "9223372036854775806", "9223372036854775807", "9223372036854775808", "-9223372036854775807", "-9223372036854775809",
                                       "18446744073709551616", "18446744073709551617", "99999999999999999999999999999999", "00000000000000000000000000000003", "1", "32767", "32768", "-32768", "-32769", "65535", "65536", "65537" };
  auto a = c.pick(nums);
  auto b = c.pick(nums);
  text<long>(c, a + "//" + b);
  text<int>(c, a + "//" + b);
  text<short>(c, a + "//" + b);
  text<long long>(c, a + "//" + b);
  mc::H h;
  c.state(h.add(a).add(b));
}

MC_FAMILY(streams, "all sequences of valid and malformed items in one stream, also with exceptions enabled", 3)
{
  std::vector<std::string> const items{ "1//2", "-6//4", "8//-2", "x", "3//0", "5/6", "7", "2//x" };
  auto n = c.range(1, mc::bound(4, 3, 5, 4));
  std::string s;
  std::vector<int> seq;
  for (long k = 0; k < n; ++k) {
    seq.push_back(c.choose(static_cast<int>(items.size())));
    s += (k != 0 ? " " : "") + items[seq.back()];
  }
  auto ex = c.flip();
  std::istringstream in(s);
  if (ex) {
    in.exceptions(std::ios::failbit);
  }
  M const want[] = { M(1, 2), M(-3, 2), M(-4, 1) };
  mc::H h;
  h.add(s).add(static_cast<uint64_t>(ex));
  c.state(h);
  bool failed = false;
  for (long k = 0; k < n; ++k) {
    auto r = bwsl::RationalLong(11, 13);
    bool thrown = false;
    try {
      in >> r;
    } catch (std::ios_base::failure const&) {
      thrown = true;
    }
    c.op("read -> ", str(r));
    if (!failed && seq[k] < 3) {
      MC_CHECK(c, !in.fail() && !thrown && same(r, want[seq[k]]), quote(s), " item ", k, " reads as ", str(r));
    } else {
      // once failed, the stream stays failed and targets stay untouched
      failed = true;
      MC_CHECK(c, in.fail(), quote(s), " item ", k, " does not fail");
      MC_CHECK(c, thrown == ex, quote(s), " item ", k, " exception");
      MC_CHECK(c, same(r, M(11, 13)), quote(s), " item ", k, " modified the target: ", str(r));
    }
  }
}

// Long texts of small numbers
MC_FAMILY(long_texts, "leading zeros, blanks and trailing characters of every length around powers of two", 3)
{
  auto n = static_cast<size_t>(c.pick({ 1, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 4096, 65535, 65536, 65537 }));
  auto where = c.choose(6);
  auto sign = c.flip() ? "-" : "";
  auto z = std::string(n, where == 5 ? '1' : where == 2 ? ' ' : where == 3 ? 'x' : where == 4 ? '9' : '0');
  std::string s;
  switch (where) {
    case 0: s = sign + z + "12//34"; break;
    case 1: s = "12//" + (sign + z) + "34"; break;
    case 2: s = z + sign + "12//34" + z; break;
    case 3: s = sign + std::string("12//34") + z; break;
    case 4: s = sign + z + "//7"; break;
    default: s = "7//" + (sign + z); break;
  }
  text<long>(c, s);
  text<int>(c, s);
  mc::H h;
  c.state(h.add(n).add(static_cast<uint64_t>(where)).add(std::string(sign)));
}

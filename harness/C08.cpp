#include "lattices.hpp"
using namespace lat;
using shapes::str;

static std::vector<std::string>
split(std::string const& s, char sep)
{
  std::vector<std::string> out{ "" };
  for (char ch : s) {
    if (ch == sep) {
      out.emplace_back();
    } else {
      out.back() += ch;
    }
  }
  return out;
}

/// Lines of the file; the last one has to be terminated.
static std::vector<std::vector<std::string>>
read(mc::Ctx& c, std::string const& fn)
{
  std::ifstream in(fn, std::ios::binary);
  MC_CHECK(c, static_cast<bool>(in), "no file ", fn);
  std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  MC_CHECK(c, !s.empty() && s.back() == '\n', "the last line is not terminated");
  auto lines = split(s, '\n');
  lines.pop_back();
  std::vector<std::vector<std::string>> out;
  for (auto const& l : lines) {
    out.push_back(split(l, ','));
  }
  return out;
}

static void
number(mc::Ctx& c, std::string const& field, double want, std::string const& where)
{
  char* end = nullptr;
  auto x = std::strtod(field.c_str(), &end);
  MC_CHECK(c, !field.empty() && *end == 0, where, ": '", field, "' is not a number");
  MC_CHECK(c, x == want, where, ": '", field, "' is not ", want);
}

static void
index(mc::Ctx& c, std::string const& field, size_t want, std::string const& where)
{
  MC_CHECK(c, field == std::to_string(want), where, ": '", field, "' is not ", want);
}

static void
header(mc::Ctx& c, std::vector<std::string> const& h, std::vector<std::string> first, std::string const& groups, size_t dim, std::string const& where)
{
  for (char g : groups) {
    for (size_t i = 0; i < dim; ++i) {
      first.push_back(std::string(1, g) + std::to_string(i));
    }
  }
  MC_CHECK(c, h == first, where, " header");
}

static void
check(mc::Ctx& c, Def const& d, bwsl::Lattice const& l, std::string const& fn, int what)
{
  auto n = l.GetNumSites();
  auto where = d.name + " " + str(l.GetSize());
  if (what == 0) {
    l.SavePositions(fn);
  } else if (what == 1) {
    l.SaveDistances(fn);
  } else if (what == 2) {
    l.SaveMomenta(fn);
  } else {
    l.SavePairs(fn);
  }
  c.op("Save ", what, " ", where);
  auto t = read(c, fn);
  MC_CHECK(c, !t.empty(), where);
  if (what == 3) {
    header(c, t[0], { "i", "a", "b" }, "xyd", d.dim, where);
    MC_CHECK(c, t.size() == n * n + 1, where, " ", t.size(), " lines");
    for (size_t i = 0; i < n * n; ++i) {
      auto const& r = t[i + 1];
      MC_CHECK(c, r.size() == 3 + 3 * d.dim, where, " row ", i);
      auto a = i % n;
      auto b = i / n;
      index(c, r[0], i, where);
      index(c, r[1], a, where);
      index(c, r[2], b, where);
      auto va = l.GetVector(0, a);
      auto vb = l.GetVector(0, b);
      auto v = l.GetVector(a, b);
      for (size_t k = 0; k < d.dim; ++k) {
        number(c, r[3 + k], va[k], where);
        number(c, r[3 + d.dim + k], vb[k], where);
        number(c, r[3 + 2 * d.dim + k], v[k], where);
      }
    }
    return;
  }
  header(c, t[0], { "i" }, std::string(1, "xdk"[what]), d.dim, where);
  auto rows = what == 2 && l.HasOpenBoundaries() ? 0 : n;
  MC_CHECK(c, t.size() == rows + 1, where, " ", t.size(), " lines");
  for (size_t i = 0; i < rows; ++i) {
    auto const& r = t[i + 1];
    MC_CHECK(c, r.size() == 1 + d.dim, where, " row ", i);
    index(c, r[0], i, where);
    auto v = what == 0 ? l.GetPosition(i) : what == 1 ? l.GetVector(0, i) : l.GetMomentum(i);
    for (size_t k = 0; k < d.dim; ++k) {
      number(c, r[1 + k], v[k], where);
    }
  }
}

static std::string
path(int what)
{
  return mc::scratch + "/" + std::to_string(getpid()) + "-" + std::to_string(what) + ".dat";
}

MC_FAMILY(tables, "all lattices, all shapes, both boundaries, the four tables", 4)
{
  auto const& d = c.pick(all());
  auto b = c.pick({ Closed, Open });
  auto s = shapes::choose_shape(c, d.dim, maxsize(d.dim, 24), mc::bound<size_t>(24, 10, 48, 24));
  auto l = bwsl::Lattice(d.make(), s, b);
  for (int what = 0; what < 4; ++what) {
    check(c, d, l, path(what), what);
    mc::H h;
    c.state(h.add(d.name).addv(s).add(static_cast<uint64_t>(b == Open)).add(static_cast<uint64_t>(what)));
  }
}

MC_FAMILY(many, "more than ten and more than a hundred sites per side, scaled and shifted numbers of every magnitude", 3)
{
  auto b = c.pick({ Closed, Open });
  Def d;
  d.dim = 1;
  auto e = c.range(-30, 30);
  d.v = { { std::ldexp(1.0, static_cast<int>(e) * 10) / 3 } };
  d.dirs = { { 1 } };
  d.name = "chain scaled by 2^" + std::to_string(10 * e) + "/3";
  auto n = static_cast<size_t>(c.pick({ 1, 2, 3, 12, 101 }));
  auto l = bwsl::Lattice(d.make(), { n }, b);
  for (int what = 0; what < 3; ++what) {
    check(c, d, l, path(what), what);
  }
  mc::H h;
  c.state(h.add(d.name).add(n).add(static_cast<uint64_t>(b == Open)));
}

MC_FAMILY(units, "all lattices in units of length of 2^-480 to 2^480, both boundaries, the four tables", 3)
{
  auto d = scaled(c.pick(all()), c.pick(mc::bound<std::vector<int>>(units(), { -24, 100, -400 }, units(), units())));
  auto b = c.pick({ Closed, Open });
  Sizes s(d.dim, 1);
  s[0] = 3;
  s.back() = 2;
  auto l = bwsl::Lattice(d.make(), s, b);
  for (int what = 0; what < 4; ++what) {
    check(c, d, l, path(what), what);
  }
  mc::H h;
  c.state(h.add(d.name).add(static_cast<uint64_t>(b == Open)));
}

// histories of saves onto the same file
MC_FAMILY(replace, "all histories of up to three saves of different lattices and tables onto one file", 3)
{
  auto fn = path(9);
  std::remove(fn.c_str());
  auto n = c.range(1, mc::bound(3, 2, 4, 3));
  mc::H h;
  for (long k = 0; k < n; ++k) {
    auto which = c.choose(4);
    auto what = c.choose(4);
    auto const& d = all()[which == 3 ? 5 : which];
    auto s = which == 0 ? Sizes{ 9 } : which == 1 ? Sizes{ 2, 2 } : which == 2 ? Sizes{ 1, 1, 2 } : Sizes{ 3 };
    static std::vector<bwsl::Lattice> ls;
    if (ls.empty()) {
      ls.emplace_back(all()[0].make(), Sizes{ 9 }, Open);
      ls.emplace_back(all()[1].make(), Sizes{ 2, 2 }, Closed);
      ls.emplace_back(all()[2].make(), Sizes{ 1, 1, 2 }, Closed);
      ls.emplace_back(all()[5].make(), Sizes{ 3 }, Open);
    }
    check(c, d, ls[which], fn, what);
    h.add(static_cast<uint64_t>(which * 4 + what));
    c.state(h);
  }
}

// More rows than fit narrower integers
MC_FAMILY(big, "tables of more than 2^16 rows: chains and squares of many sites, pairs of more than 256 sites", 3)
{
  auto b = c.pick({ Closed, Open });
  auto what = c.choose(4);
  auto const& d = all()[static_cast<size_t>(c.pick(mc::bound<std::vector<int>>({ 0, 1, 3 }, { 3 }, { 0, 1, 2, 3, 5, 8 }, { 0, 3 })))];
  auto n = what == 3 ? c.pick(mc::bound<std::vector<size_t>>({ 256, 257 }, { 17 }, { 255, 256, 257, 300 }, { 257 })) : c.pick(mc::bound<std::vector<size_t>>({ 1025, 32769, 65537, 131073 }, { 1025 }, { 1025, 32769, 65536, 65537, 131073 }, { 65537 }));
  auto s = choose_big(c, d.dim, n);
  auto l = bwsl::Lattice(d.make(), s, b);
  auto fn = path(8);
  check(c, d, l, fn, what);
  std::remove(fn.c_str());
  mc::H h;
  c.state(h.add(d.name).addv(s).add(static_cast<uint64_t>(b == Open)).add(static_cast<uint64_t>(what)));
}

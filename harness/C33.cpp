#include "subjects.hpp"
#include <deque>
#include <map>
#include <memory>
#include <optional>
using namespace subj;

/// An object with the history that gave its state
template<class S>
struct Handle
{
  std::unique_ptr<typename S::T> obj; // none: not made yet, or destroyed
  bool valid = false;                 // false: moved from
  int start = 0;
  std::vector<int> ops;
  typename S::T replayed() const
  {
    auto r = S::make(start);
    for (auto k : ops) {
      S::op(r, k);
    }
    return r;
  }
};

template<class S>
static void
verify(mc::Ctx& c, Handle<S> const* h, int n, char const* when)
{
  mc::H st;
  st.add(std::string(S::name));
  for (int i = 0; i < n; ++i) {
    if (!h[i].obj || !h[i].valid) {
      st.add(h[i].obj ? 1 : 2);
      continue;
    }
    auto want = look<S>(h[i].replayed());
    auto got = look<S>(*h[i].obj);
    MC_CHECK(c, got == want, S::name, ", object ", i, " after ", when, ": ", got.str(), " expected ", want.str());
    want.hash(st);
  }
  c.state(st);
}

/// Two objects: all histories of changing, copying, moving, exchanging and
/// destroying them.  The model of an object is its own history, replayed on an
/// object that has nothing to do with any other.
template<class S>
static void
pairs(mc::Ctx& c, int depth)
{
  using T = typename S::T;
  Handle<S> h[2];
  h[0].start = c.choose(S::starts);
  h[0].obj = std::make_unique<T>(S::make(h[0].start));
  h[0].valid = true;
  c.op(S::name, " start ", h[0].start);
  constexpr bool assignable = std::is_copy_assignable_v<T>;
  constexpr int structural = assignable ? 9 : 5;
  for (int i = 0; i < depth; ++i) {
    auto who = c.choose(2);
    auto& a = h[who];
    auto& b = h[1 - who];
    auto k = c.choose(S::ops + structural);
    char const* what = "";
    if (k < S::ops) { // change
      c.assume(a.obj && a.valid);
      auto r = a.replayed();
      auto want = S::op(r, k);
      auto got = S::op(*a.obj, k);
      a.ops.push_back(k);
      c.op("change ", who, ": ", got);
      MC_CHECK(c, got == want, S::name, ", object ", who, ": operation ", k, " gives '", got, "' expected '", want, "'");
      what = "a change";
    } else {
      c.assume(a.obj != nullptr);
      auto follow = [&](Handle<S>& to, Handle<S> const& from) {
        to.start = from.start;
        to.ops = from.ops;
        to.valid = true;
      };
      switch (k - S::ops) {
        case 0: // copy construction
          c.assume(a.valid && !b.obj);
          b.obj = std::make_unique<T>(static_cast<T const&>(*a.obj));
          follow(b, a);
          what = "a copy";
          break;
        case 1: // move construction
          c.assume(a.valid && !b.obj);
          b.obj = std::make_unique<T>(std::move(*a.obj));
          follow(b, a);
          a.valid = false;
          what = "a move";
          break;
        case 2: // destruction
          a.obj.reset();
          a.valid = false;
          c.assume(b.obj != nullptr);
          what = "a destruction";
          break;
        case 3: { // a copy that goes away, changed
          c.assume(a.valid);
          {
            T t(*a.obj);
            S::op(t, 0);
            S::op(t, S::ops - 1);
          }
          what = "a temporary copy";
          break;
        }
        case 4: { // through a container
          c.assume(a.valid);
          std::vector<T> v;
          v.push_back(*a.obj);
          v.push_back(*a.obj);
          v.push_back(v[0]);
          S::op(v[1], 0);
          v.reserve(100);
          a.obj = std::make_unique<T>(v[2]);
          what = "growing a container";
          break;
        }
        default:
          if constexpr (assignable) {
            switch (k - S::ops - 5) {
              case 0: // copy assignment, over whatever there is
                c.assume(a.valid && b.obj);
                *b.obj = static_cast<T const&>(*a.obj);
                follow(b, a);
                what = "an assignment";
                break;
              case 1: // move assignment
                c.assume(a.valid && b.obj);
                *b.obj = std::move(*a.obj);
                follow(b, a);
                a.valid = false;
                what = "a move assignment";
                break;
              case 2: { // self assignment
                c.assume(a.valid);
                T const& same = *a.obj;
                T& r = (*a.obj = same);
                MC_CHECK(c, &r == a.obj.get(), S::name, ": assignment does not return the object");
                what = "a self assignment";
                break;
              }
              default:
                c.assume(a.valid && b.obj && b.valid && who == 0);
                std::swap(*a.obj, *b.obj);
                std::swap(a.start, b.start);
                std::swap(a.ops, b.ops);
                what = "an exchange";
                break;
            }
          }
          break;
      }
      c.op(what, " (object ", who, ")");
    }
    verify(c, h, 2, what);
  }
}

#define SUBJECT(N, S, q, qs, t, ts)                                            \
  MC_FAMILY(N, "two objects: all histories of changing, copying, moving, assigning, exchanging and destroying them up to a depth", 4) \
  {                                                                            \
    pairs<S>(c, mc::bound(q, qs, t, ts));                                      \
  }
SUBJECT(kahan, Kahan, 5, 4, 6, 5)
SUBJECT(neumaier, Neumaier, 5, 4, 6, 5)
SUBJECT(welford, Welford, 5, 4, 6, 5)
SUBJECT(west, West, 5, 4, 6, 5)
SUBJECT(naive_integer, Naive, 5, 4, 6, 5)
SUBJECT(histogram, Hist, 5, 3, 5, 4)
SUBJECT(statistics, Stats, 4, 3, 5, 4)
SUBJECT(group, Group, 4, 3, 4, 3)
SUBJECT(integer_group, IntGroup, 3, 3, 4, 3)
SUBJECT(result, Result, 5, 4, 6, 5)
SUBJECT(rational, Rational, 5, 4, 6, 5)
SUBJECT(linear, Lin, 5, 4, 6, 5)
SUBJECT(logarithmic, Log, 4, 4, 6, 5)
SUBJECT(approximate, Approximate, 5, 4, 6, 5)
SUBJECT(grid, Grid, 4, 3, 5, 4)
SUBJECT(cell, Cell, 5, 3, 6, 4)
SUBJECT(lattice, Latt, 4, 3, 5, 4)

/// The deeper history before one copy, all continuations of both in any order
template<class S>
static void
deep(mc::Ctx& c, int before, int after)
{
  using T = typename S::T;
  Handle<S> h[2];
  h[0].start = c.choose(S::starts);
  h[0].obj = std::make_unique<T>(S::make(h[0].start));
  h[0].valid = true;
  for (int i = 0; i < before; ++i) {
    auto k = c.choose(S::ops);
    c.op(S::name, ": ", S::op(*h[0].obj, k));
    h[0].ops.push_back(k);
  }
  h[1] = Handle<S>{ std::make_unique<T>(*h[0].obj), true, h[0].start, h[0].ops };
  c.op("copy");
  verify(c, h, 2, "a copy");
  for (int i = 0; i < after; ++i) {
    auto& a = h[c.choose(2)];
    auto k = c.choose(S::ops);
    c.op(&a == h ? "original: " : "copy: ", S::op(*a.obj, k));
    a.ops.push_back(k);
    verify(c, h, 2, "a change");
  }
}
#define DEEP(N, S, b, bs, a, as)                                               \
  MC_FAMILY(N, "all histories, then one copy, then all continuations of both objects", 4) \
  {                                                                            \
    deep<S>(c, mc::bound(b, bs, b + 1, b), mc::bound(a, as, a, a));            \
  }
DEEP(histogram_deep, Hist, 3, 2, 2, 1)
DEEP(statistics_deep, Stats, 3, 2, 2, 2)
DEEP(group_deep, Group, 2, 1, 2, 1)
DEEP(west_deep, West, 3, 2, 2, 2)

/// Every state assigned over every other state
template<class T>
static void
onto(mc::Ctx& c, char const* name, std::function<T(int)> const& make, std::function<Obs(T const&)> const& see, int i, int j)
{
  auto const from = see(make(i));
  auto const over = see(make(j));
  auto how = c.choose(6);
  static char const* const what[] = { "copy assignment", "move assignment", "exchange", "copy construction", "move construction", "copy assignment and back" };
  c.op(name, " ", i, " onto ", j, ": ", what[how]);
  T a = make(i);
  T b = make(j);
  bool a_valid = true;
  auto wanted_a = from;
  auto wanted_b = from;
  switch (how) {
    case 0: b = static_cast<T const&>(a); break;
    case 1:
      b = std::move(a);
      a_valid = false;
      break;
    case 2:
      std::swap(a, b);
      wanted_a = over;
      break;
    case 3: {
      T t(static_cast<T const&>(a));
      auto got = see(t);
      MC_CHECK(c, got == from, name, ": a copy is ", got.str(), " expected ", from.str());
      wanted_b = over;
      break;
    }
    case 4: {
      T t(std::move(a));
      auto got = see(t);
      MC_CHECK(c, got == from, name, ": moved to ", got.str(), " expected ", from.str());
      wanted_b = over;
      a = make(j); // a moved from object takes a new value
      wanted_a = over;
      break;
    }
    default: {
      T t(b);
      b = static_cast<T const&>(a);
      auto got = see(b);
      MC_CHECK(c, got == from, name, ": assigned ", got.str(), " expected ", from.str());
      b = static_cast<T const&>(t);
      wanted_b = over;
      break;
    }
  }
  auto got = see(b);
  MC_CHECK(c, got == wanted_b, name, " ", i, " onto ", j, ", ", what[how], ": ", got.str(), " expected ", wanted_b.str());
  if (a_valid) {
    got = see(a);
    MC_CHECK(c, got == wanted_a, name, " ", i, " onto ", j, ", ", what[how], ", the source: ", got.str(), " expected ", wanted_a.str());
  }
  mc::H h;
  h.add(std::string(name)).add(how);
  from.hash(h);
  over.hash(h);
  c.state(h);
}

static std::vector<std::pair<shapes::Sizes, shapes::Grid::boundaries_t>> const&
grid_states()
{
  static std::vector<std::pair<shapes::Sizes, shapes::Grid::boundaries_t>> const v = [] {
    std::vector<std::pair<shapes::Sizes, shapes::Grid::boundaries_t>> w;
    for (auto b : { shapes::Open, shapes::Closed }) {
      for (auto const& s : std::vector<shapes::Sizes>{ {}, { 1 }, { 4 }, { 5 }, { 2, 3 }, { 3, 2 }, { 1, 4 }, { 6, 1 }, { 1, 2, 3 }, { 2, 2, 2 }, { 2, 1, 1, 2 }, { 1, 1, 1, 1, 3 }, { 2, 1, 1, 1, 1, 2 }, { 1, 1, 1, 2, 1, 1, 3 } }) {
        w.emplace_back(s, b);
      }
    }
    return w;
  }();
  return v;
}
MC_FAMILY(grids_onto_grids, "every grid (of 0 to 7 dimensions, both boundaries) copied, moved, assigned and exchanged onto every other", 2)
{
  auto const& v = grid_states();
  auto i = c.choose(static_cast<int>(v.size()));
  auto j = c.choose(static_cast<int>(v.size()));
  onto<bwsl::HyperCubicGrid>(
    c, "HyperCubicGrid", [&](int k) { return bwsl::HyperCubicGrid(v[static_cast<size_t>(k)].first, v[static_cast<size_t>(k)].second); },
    [](bwsl::HyperCubicGrid const& g) { return look<Grid>(g); }, i, j);
}
MC_FAMILY(cells_onto_cells, "every infinite lattice copied, moved, assigned and exchanged onto every other", 2)
{
  auto n = static_cast<int>(lat::all().size());
  auto i = c.choose(n);
  auto j = c.choose(n);
  onto<bwsl::Bravais>(
    c, "Bravais", [](int k) { return lat::all()[static_cast<size_t>(k)].make(); }, [](bwsl::Bravais const& b) { return look<Cell>(b); }, i, j);
}
MC_FAMILY(lattices_onto_lattices, "every finite lattice (small shapes, both boundaries) copied, moved, assigned and exchanged onto every other", 2)
{
  auto n = static_cast<int>(lat::all().size()) * 4;
  auto i = c.choose(n);
  auto j = c.choose(n);
  onto<bwsl::Lattice>(
    c, "Lattice",
    [](int k) {
      auto const& d = lat::all()[static_cast<size_t>(k / 4)];
      shapes::Sizes s(d.dim, 1);
      s[0] = 2;
      s.back() = k % 4 >= 2 ? 3 : 2;
      return bwsl::Lattice(d.make(), s, k % 2 == 0 ? shapes::Closed : shapes::Open);
    },
    [](bwsl::Lattice const& l) { return look<Latt>(l); }, i, j);
}

/// A copy of a class that is part of another: the lattice as a grid or a cell
MC_FAMILY(parts, "grids copied from the base of a lattice, lattices copied from parts of others", 2)
{
  auto k = c.choose(Latt::starts);
  auto l = std::make_unique<bwsl::Lattice>(Latt::make(k));
  auto before = look<Latt>(*l);
  bwsl::HyperCubicGrid g(*l);
  auto grid = look<Grid>(g);
  MC_CHECK(c, grid == look<Grid>(*l), "the grid of a lattice: ", grid.str());
  Latt::op(*l, 0);
  MC_CHECK(c, look<Grid>(g) == grid, "the grid changed with the lattice");
  *l = Latt::make(k);
  MC_CHECK(c, look<Latt>(*l) == before, "a lattice assigned back differs");
  Grid::op(g, 0);
  MC_CHECK(c, look<Latt>(*l) == before, "the lattice changed with the grid");
  g = *l;
  l.reset();
  MC_CHECK(c, look<Grid>(g) == grid, "the grid changed when the lattice was destroyed");
  c.op("lattice ", k);
  mc::H h;
  before.hash(h);
  c.state(h);
}

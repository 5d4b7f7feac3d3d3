#include "subjects.hpp"
#include <malloc.h>
#include <memory>
#include <new>
using namespace subj;

// ------------------------------------------------------------ the allocator's part
namespace env {
static bool armed = false;
static long left = -1;       // allocations that succeed before the one that fails
static bool forever = false; // and all after it
static long failed = 0;
static long calls = 0;
static long live = 0; // allocations not released

static void*
allocate(size_t n, size_t align)
{
  if (armed) {
    ++calls;
    if (left == 0 || (left < 0 && forever && failed > 0)) {
      left = -1;
      ++failed;
      return nullptr;
    }
    if (left > 0) {
      --left;
    }
  }
  void* p = align > alignof(std::max_align_t) ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n == 0 ? 1 : n);
  if (p != nullptr) {
    ++live;
  }
  return p;
}
static void
release(void* p)
{
  if (p != nullptr) {
    --live;
    free(p);
  }
}
static void
arm(long k, bool all)
{
  left = k;
  forever = all;
  failed = 0;
  calls = 0;
  armed = true;
}
} // namespace env

void* operator new(size_t n) { auto* p = env::allocate(n, 0); if (p == nullptr) { throw std::bad_alloc(); } return p; }
void* operator new[](size_t n) { auto* p = env::allocate(n, 0); if (p == nullptr) { throw std::bad_alloc(); } return p; }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return env::allocate(n, 0); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return env::allocate(n, 0); }
void* operator new(size_t n, std::align_val_t a) { auto* p = env::allocate(n, static_cast<size_t>(a)); if (p == nullptr) { throw std::bad_alloc(); } return p; }
void* operator new[](size_t n, std::align_val_t a) { auto* p = env::allocate(n, static_cast<size_t>(a)); if (p == nullptr) { throw std::bad_alloc(); } return p; }
void operator delete(void* p) noexcept { env::release(p); }
void operator delete[](void* p) noexcept { env::release(p); }
void operator delete(void* p, size_t) noexcept { env::release(p); }
void operator delete[](void* p, size_t) noexcept { env::release(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { env::release(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { env::release(p); }
void operator delete(void* p, std::align_val_t) noexcept { env::release(p); }
void operator delete[](void* p, std::align_val_t) noexcept { env::release(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { env::release(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { env::release(p); }

/// Runs f with the k-th allocation failing. Whether f has reported a failure.
template<class F>
static bool
under_failure(mc::Ctx& c, long k, bool all, F f)
{
  bool threw = false;
  bool other = false;
  std::string what;
  env::arm(k, all);
  try {
    f();
    env::armed = false;
  } catch (std::bad_alloc const&) {
    env::armed = false;
    threw = true;
  } catch (mc::Fail const&) {
    env::armed = false;
    throw;
  } catch (std::exception const& e) {
    env::armed = false;
    threw = true;
    other = true;
    what = e.what();
  } catch (...) {
    env::armed = false;
    threw = true;
    other = true;
    what = "an object that is no exception";
  }
  MC_CHECK(c, !threw || env::failed > 0, "an exception although no allocation has failed: ", what);
  MC_CHECK(c, !other || std::strncmp(what.c_str(), "mc: ", 4) != 0, what);
  ++c.ops;
  return threw;
}

/// Every allocation of f in turn fails, alone or with all after it
template<class Prepare, class F, class After>
static void
every_allocation(mc::Ctx& c, Prepare prepare, F f, After after)
{
  for (bool all : { false, true }) {
    for (long k = 0;; ++k) {
      if (k > 20000) {
        mc::fail("the call does not run out of allocations");
      }
      auto subject = prepare();
      bool threw = under_failure(c, k, all, [&] { f(*subject); });
      auto hit = env::failed > 0;
      after(*subject, threw, k);
      if (!hit) {
        MC_CHECK(c, !threw, "failure without a cause");
        break;
      }
    }
  }
}

// -------------------------------------------------------------------- histograms
/// What the queries of a histogram say, as far as defined
struct HistState
{
  size_t count = 0;
  std::vector<size_t> counts;
  std::vector<double> sums; // result times count
  static HistState of(bwsl::HistAccumulator const& h)
  {
    HistState s;
    s.count = h.GetCount();
    for (size_t i = 0; i < h.GetNbins(); ++i) {
      s.counts.push_back(h.GetCount(i));
      s.sums.push_back(s.count > 0 ? h.GetResult(i) : 0);
    }
    if (s.count > 0 && h.GetResults().size() != h.GetNbins()) {
      mc::fail("the results have not one element per bin");
    }
    return s;
  }
  std::string str() const
  {
    std::ostringstream os;
    os << count << " measurements:";
    for (size_t i = 0; i < counts.size(); ++i) {
      os << " " << counts[i] << "/" << sums[i];
    }
    return os.str();
  }
  bool operator==(HistState const& o) const { return count == o.count && counts == o.counts && sums == o.sums; }
  /// the same up to empty bins at the end
  bool grown_from(HistState const& o) const
  {
    if (counts.size() < o.counts.size()) {
      return false;
    }
    auto t = *this;
    for (size_t i = o.counts.size(); i < counts.size(); ++i) {
      if (counts[i] != 0 || sums[i] != 0) {
        return false;
      }
    }
    t.counts.resize(o.counts.size());
    t.sums.resize(o.counts.size());
    return t == o;
  }
};

/// The last call: an addition that may grow, or a new size
struct Call
{
  bool resize;
  size_t n;
  void operator()(bwsl::HistAccumulator& h) const
  {
    if (resize) {
      h.Resize(n);
    } else {
      h.ForceAdd(n, 0.5);
    }
  }
};

MC_FAMILY(histogram, "all histories, then growing, resizing or adding with every allocation failing, then retrying and going on", 3)
{
  auto start = c.choose(Hist::starts);
  auto n = c.choose(mc::bound(4, 3, 5, 4));
  std::vector<int> ops;
  for (int i = 0; i < n; ++i) {
    ops.push_back(c.choose(Hist::ops));
  }
  Call const call{ c.flip(), c.pick({ size_t{ 0 }, size_t{ 1 }, size_t{ 3 }, size_t{ 5 }, size_t{ 40 } }) };
  auto prepare = [&] {
    auto h = std::make_unique<bwsl::HistAccumulator>(Hist::make(start));
    for (auto k : ops) {
      Hist::op(*h, k);
    }
    return h;
  };
  auto base = prepare();
  auto const before = HistState::of(*base);
  c.note("histogram of ", before.str(), call.resize ? "; Resize " : "; ForceAdd ", call.n);
  call(*base);
  auto const wanted = HistState::of(*base);
  auto next = [](bwsl::HistAccumulator& h) {
    h.ForceAdd(2, 0.25);
    h.Resize(2);
    h.ForceAdd(3);
    return HistState::of(h);
  };
  auto const continued = next(*base);
  every_allocation(c, prepare, call, [&](bwsl::HistAccumulator& h, bool threw, long k) {
    auto s = HistState::of(h);
    if (!threw) {
      MC_CHECK(c, s == wanted, "a call that succeeded gives ", s.str(), " expected ", wanted.str());
    } else {
      if (call.resize) {
        MC_CHECK(c, s == before, "a failed Resize (allocation ", k, ") changed ", before.str(), " to ", s.str());
      } else {
        MC_CHECK(c, s.grown_from(before), "a failed ForceAdd (allocation ", k, ") changed ", before.str(), " to ", s.str());
      }
      call(h);
      s = HistState::of(h);
      MC_CHECK(c, s == wanted, "retrying gives ", s.str(), " expected ", wanted.str());
    }
    auto t = next(h);
    MC_CHECK(c, t == continued, "continuing gives ", t.str(), " expected ", continued.str());
  });
  mc::H h;
  h.add(before.str()).add(call.resize).add(call.n);
  c.state(h);
}

MC_FAMILY(histogram_repeated, "several failing calls one after the other, nothing is leaked", 3)
{
  auto n = c.range(1, mc::bound(3, 2, 4, 3));
  std::vector<Call> calls;
  for (int i = 0; i < n; ++i) {
    auto r = c.flip();
    calls.push_back({ r, c.pick({ size_t{ 0 }, size_t{ 2 }, size_t{ 9 }, size_t{ 33 } }) });
  }
  auto k = c.choose(3);
  auto live = env::live;
  {
    bwsl::HistAccumulator h;
    h.ForceAdd(1, 0.5);
    auto s = HistState::of(h);
    for (auto const& call : calls) {
      c.note(call.resize ? "Resize " : "ForceAdd ", call.n, ", allocation ", k, " fails");
      auto threw = under_failure(c, k, false, [&] { call(h); });
      auto t = HistState::of(h);
      if (threw) {
        MC_CHECK(c, call.resize ? t == s : t.grown_from(s), "a failed call changed ", s.str(), " to ", t.str());
      }
      s = t;
    }
    mc::H st;
    c.state(st.add(s.str()).add(k));
  }
  MC_CHECK(c, env::live == live, env::live - live, " allocations are leaked");
}

// ------------------------------------------------------------------------- groups
template<class S>
static void
groups(mc::Ctx& c)
{
  using T = typename S::T;
  auto start = c.choose(S::starts);
  auto n = c.choose(mc::bound(3, 2, 4, 3));
  std::vector<int> ops;
  for (int i = 0; i < n; ++i) {
    ops.push_back(c.choose(6)); // (without printing)
  }
  auto which = c.choose(4); // known, new ones
  auto key = [&] {
    if constexpr (std::is_same_v<S, Group>) {
      static char const* const names[] = { "energy", "z", "b", "a name that is longer than a small string can be" };
      return std::string(names[which]);
    } else {
      return 8 + which;
    }
  };
  auto prepare = [&] {
    auto g = std::make_unique<T>(S::make(start));
    for (auto k : ops) {
      S::op(*g, k);
    }
    return g;
  };
  auto base = prepare();
  auto const before = look<S>(*base);
  c.note(S::name, " ", before.str(), ", adding observable ", which);
  auto const k = key();
  auto call = [&](T& g) { g.AddObservable(k); };
  call(*base);
  auto const wanted = look<S>(*base);
  auto const file = S::file(*base);
  every_allocation(c, prepare, call, [&](T& g, bool threw, long) {
    auto s = look<S>(g);
    if (threw) {
      MC_CHECK(c, s == before, S::name, ": a failed addition changed ", before.str(), " to ", s.str());
      // still usable
      if (start == 1) {
        auto other = prepare();
        auto x = S::op(*other, 0);
        auto t = T(g);
        MC_CHECK(c, S::op(t, 0) == x && look<S>(t) == look<S>(*other), S::name, ": measuring after a failed addition differs");
      }
      call(g);
      s = look<S>(g);
    }
    MC_CHECK(c, s == wanted, S::name, ": the addition gives ", s.str(), " expected ", wanted.str());
    auto f = S::file(g);
    MC_CHECK(c, f == file, S::name, ": prints '", f, "' expected '", file, "'");
  });
  // measuring
  bool known = true;
  try {
    prepare()->Measure(k, 0.5);
  } catch (std::exception const&) {
    known = false;
  }
  if (known)
  every_allocation(
    c, prepare, [&](T& g) { g.Measure(k, 0.5); }, [&](T& g, bool threw, long) {
      auto s = look<S>(g);
      if (threw) {
        MC_CHECK(c, s == before, S::name, ": a failed measurement changed ", before.str(), " to ", s.str());
      } else {
        auto other = prepare();
        other->Measure(k, 0.5);
        MC_CHECK(c, s == look<S>(*other), S::name, ": a measurement gives ", s.str());
      }
    });
  mc::H h;
  before.hash(h);
  c.state(h.add(which).add(std::string(S::name)));
}

MC_FAMILY(string_group, "all histories of a group of named observables, then adding one with every allocation failing, then retrying", 3) { groups<Group>(c); }
MC_FAMILY(integer_group, "the same for numbered observables", 3) { groups<IntGroup>(c); }

// ----------------------------------------------------------------------- building
/// Every allocation of the construction fails: nothing is leaked; an object that
/// has been built is the right one
template<class S, class Build>
static void
build(mc::Ctx& c, Obs const& want, Build make, long stride = 1)
{
  for (bool all : { false, true }) {
    long step = 1;
    for (long k = 0;; k += step) {
      if (k > 200000) {
        mc::fail("building does not run out of allocations");
      }
      auto live = env::live;
      bool hit = false;
      {
        std::unique_ptr<typename S::T> p;
        bool threw = under_failure(c, k, all, [&] { p = make(); });
        hit = env::failed > 0;
        MC_CHECK(c, threw == (p == nullptr), S::name, ": neither built nor failed");
        if (p) {
          MC_CHECK(c, look<S>(*p) == want, S::name, ": built ", look<S>(*p).str(), " expected ", want.str());
        }
      }
      MC_CHECK(c, env::live == live, S::name, ": ", env::live - live, " allocations are leaked when allocation ", k, " fails");
      if (!hit) {
        break;
      }
      step = k < 3000 ? 1 : stride;
    }
  }
}
template<class S>
static void
building(mc::Ctx& c)
{
  using T = typename S::T;
  auto start = c.choose(S::starts);
  auto n = S::ops > 1 ? c.choose(4) : 0;
  auto a = S::make(start);
  for (int i = 0; i < n; ++i) {
    S::op(a, std::min(i, S::ops - 1));
  }
  auto want = look<S>(a);
  c.note(S::name, " ", start);
  auto fresh = look<S>(S::make(start)); // (also allocates what is allocated once)
  build<S>(c, fresh, [&] { return std::make_unique<T>(S::make(start)); });
  // copies
  {
    auto warm = std::make_unique<T>(a);
  }
  build<S>(c, want, [&] { return std::make_unique<T>(a); });
  MC_CHECK(c, look<S>(a) == want, S::name, ": a failed copy changed the original");
  mc::H h;
  want.hash(h);
  c.state(h.add(std::string(S::name)).add(start));
}
MC_FAMILY(build_others, "building and copying histograms, groups, move statistics, grids and infinite lattices with every allocation failing", 2)
{
  switch (c.choose(6)) {
    case 0: building<Hist>(c); break;
    case 1: building<Group>(c); break;
    case 2: building<IntGroup>(c); break;
    case 3: building<Stats>(c); break;
    case 4: building<Grid>(c); break;
    default: building<Cell>(c); break;
  }
}

MC_FAMILY(build_lattice, "building and copying lattices of all kinds with every allocation failing", 2)
{
  auto const& cells = lat::all();
  auto kind = c.choose(static_cast<int>(cells.size()));
  auto const cell = cells[static_cast<size_t>(kind)].make();
  auto d = cell.GetDim();
  c.assume(d <= 4);
  std::vector<size_t> size;
  for (size_t i = 0; i < d; ++i) {
    size.push_back(static_cast<size_t>(c.range(1, d == 1 ? mc::bound(6, 3, 10, 6) : d == 2 ? mc::bound(3, 2, 4, 3) : mc::bound(2, 1, 2, 2))));
  }
  auto open = c.flip();
  auto bc = open ? shapes::Open : shapes::Closed;
  c.note("lattice ", kind, open ? " open" : " closed", " of size ", size[0], " ...");
  bwsl::Lattice const ref(cell, size, bc);
  auto want = look<Latt>(ref);
  build<Latt>(c, want, [&] { return std::make_unique<bwsl::Lattice>(cell, size, bc); });
  build<Latt>(c, want, [&] { return std::make_unique<bwsl::Lattice>(ref); });
  MC_CHECK(c, look<Latt>(ref) == want, "a failed copy changed the original");
  mc::H h;
  want.hash(h);
  c.state(h);
}

/// Queries that need memory fail without a trace
template<class S>
static void
queries(mc::Ctx& c)
{
  auto start = c.choose(S::starts);
  auto const a = S::make(start);
  auto want = look<S>(a);
  auto live = env::live;
  for (long k = 0;; ++k) {
    bool threw = under_failure(c, k, false, [&] {
      auto o = look<S>(a);
      env::armed = false;
      if (!(o == want)) {
        mc::fail(S::name, ": a query after a failed allocation gives another answer");
      }
    });
    if (env::failed == 0) {
      break;
    }
    (void)threw;
    if (k % 16 == 0) {
      MC_CHECK(c, look<S>(a) == want, S::name, ": a failed query changed the object");
    }
    MC_CHECK(c, env::live == live, S::name, ": a failed query leaked ", env::live - live, " allocations");
    if (k > mc::bound(3000L, 600L, 100000L, 3000L)) {
      break;
    }
  }
  MC_CHECK(c, look<S>(a) == want, S::name, ": a failed query changed the object");
  c.op(S::name, " ", start);
  mc::H h;
  want.hash(h);
  c.state(h.add(std::string(S::name)));
}
MC_FAMILY(query, "queries of grids, lattices and histograms with every allocation failing leave the object as it was", 2)
{
  switch (c.choose(4)) {
    case 0: queries<Hist>(c); break;
    case 1: queries<Grid>(c); break;
    case 2: queries<Cell>(c); break;
    default: queries<Latt>(c); break;
  }
}

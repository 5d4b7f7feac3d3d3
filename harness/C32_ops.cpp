// Compiled with -fsanitize=thread: every access to memory calls the runtime of
// C32.cpp (not the one of the compiler).
#include <locale>
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE // strings and streams of this unit are seen, too
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include "C32_ops.hpp"
#include "subjects.hpp"
#include <bwsl/EnumString.hpp>
#include <bwsl/FileUtils.hpp>
#include <bwsl/MathUtils.hpp>
#include <bwsl/Pairs.hpp>
#include <bwsl/RNGUtils.hpp>
#include <functional>
#include <memory>
#include <random>

BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Colour, (Red)(Green)(DarkBlue))

namespace c32 {
using subj::Obs;
using Query = std::function<void(Obs&, int)>;
static std::string dir;

static std::string
file_of(int thread, char const* what)
{
  return dir + "/" + what + std::to_string(thread);
}
static std::string
slurp_and_remove(std::string const& f)
{
  auto s = subj::slurp(f);
  ::unlink(f.c_str());
  return s;
}

using Made = std::vector<std::pair<char const*, Query>>;

template<class G>
static void
grid_queries(std::shared_ptr<G const> g, Made& m)
{
  m.push_back({ "shape", [g](Obs& o, int) { o << g->GetDim() << g->GetNumSites() << g->GetSize() << g->HasOpenBoundaries() << g->HasClosedBoundaries() << static_cast<int>(g->GetBoundaries()); } });
  m.push_back({ "GetCoordinates", [g](Obs& o, int) { for (size_t a = 0; a < g->GetNumSites(); ++a) { o << g->GetCoordinates(a); } } });
  m.push_back({ "GetIndex", [g](Obs& o, int) { for (long x = 0; x < 2; ++x) { o << g->GetIndex({ x, 1 }) << g->IsOnGrid(std::vector<long>{ x, 5 }) << g->IndexIsValid(static_cast<size_t>(x) * 6); } } });
  m.push_back({ "GetMappedSite", [g](Obs& o, int) { for (size_t a = 0; a < g->GetNumSites(); ++a) { o << g->GetMappedSite(0, a) << g->GetUnMappedSite(a, 0) ; } } });
  m.push_back({ "EnforceBoundaries", [g](Obs& o, int) { std::vector<long> c{ -3, 5 }; g->EnforceBoundaries(c); o << c; } });
  m.push_back({ "GetPairIndex", [g](Obs& o, int) { for (size_t a = 0; a < g->GetNumSites(); ++a) { auto p = g->GetPairIndex(a, 1); auto r = g->GetIndividualIndices(p); o << p << r.first << r.second; } } });
  m.push_back({ "GetJump", [g](Obs& o, int) { for (size_t a = 0; a < g->GetNumSites(); ++a) { o << g->GetJump(a, 2); } } });
  m.push_back({ "GetGrid", [g](Obs& o, int) { auto h = g->GetGrid(); o << h.GetSize() << h.GetCoordinates(3); } });
}
static void
lattice_queries(std::shared_ptr<bwsl::Lattice const> l, Made& m)
{
  auto n = l->GetNumSites();
  m.push_back({ "GetNeighbors", [=](Obs& o, int) { for (size_t a = 0; a < n; ++a) { o << l->GetNeighbors(a); } } });
  m.push_back({ "GetDistance", [=](Obs& o, int) { for (size_t a = 0; a < n; ++a) { o << l->GetDistance(a, 1); } } });
  m.push_back({ "GetVector", [=](Obs& o, int) { for (size_t a = 0; a < n; ++a) { o << l->GetVector(1, a); } } });
  m.push_back({ "GetPosition", [=](Obs& o, int) { for (size_t a = 0; a < n; ++a) { o << l->GetPosition(a); } } });
  m.push_back({ "GetWinding", [=](Obs& o, int) { o << l->GetWinding({ 6, -4 }); } });
  m.push_back({ "AreNeighbors", [=](Obs& o, int) { for (size_t a = 0; a < n; ++a) { o << l->AreNeighbors(a, 0) << l->GetCoordination(a); } o << l->GetCoordination(); } });
  if (l->HasClosedBoundaries()) {
    m.push_back({ "GetMomentum", [=](Obs& o, int) { for (size_t a = 0; a < n; ++a) { o << l->GetMomentum(a); } } });
  }
  m.push_back({ "ComputeSk", [=](Obs& o, int t) { std::vector<int> occ(n, 0); occ[static_cast<size_t>(t)] = 1; occ[2] += 2; o << l->ComputeSk(occ, 1.5); } });
  m.push_back({ "AccumulateSk", [=](Obs& o, int t) { std::vector<double> occ(n, 0.5); occ[static_cast<size_t>(t)] = 1; std::vector<double> sk(n, 1.0); l->AccumulateSk(occ, sk, 2.0); o << sk; } });
  m.push_back({ "EnforceBoundaries", [=](Obs& o, int) { std::vector<long> c{ -3, 5 }; l->EnforceBoundaries(c); o << c; } });
  m.push_back({ "SaveDistances", [=](Obs& o, int t) { auto f = file_of(t, "d"); l->SaveDistances(f); o << slurp_and_remove(f); } });
  m.push_back({ "SavePositions", [=](Obs& o, int t) { auto f = file_of(t, "p"); l->SavePositions(f); o << slurp_and_remove(f); } });
  m.push_back({ "SaveMomenta", [=](Obs& o, int t) { auto f = file_of(t, "m"); l->SaveMomenta(f); o << slurp_and_remove(f); } });
  m.push_back({ "SavePairs", [=](Obs& o, int t) { auto f = file_of(t, "q"); l->SavePairs(f); o << slurp_and_remove(f); } });
  m.push_back({ "copy", [=](Obs& o, int) { bwsl::Lattice k(*l); o << k.GetNeighbors(1) << k.GetDistance(0, 2); } });
}
static void
bravais_queries(std::shared_ptr<bwsl::Bravais const> b, Made& m)
{
  auto d = b->GetDim();
  shapes::Coords z(d, 1), x(d, -2);
  x[0] = 3;
  m.push_back({ "dimensions", [=](Obs& o, int) { o << b->GetDim() << b->GetGamma(); } });
  m.push_back({ "GetRealSpace", [=](Obs& o, int) { o << b->GetRealSpace(x) << b->GetRealSpace(z); } });
  m.push_back({ "GetInverseVector", [=](Obs& o, int) { o << b->GetInverseVector(std::vector<double>(d, 0.75)); } });
  m.push_back({ "GetReciprocalSpace", [=](Obs& o, int) { o << b->GetReciprocalSpace(x) << b->GetReciprocalSpace(z); } });
  m.push_back({ "GetVector", [=](Obs& o, int) { o << b->GetVector(x, z) << b->GetVector(z, x); } });
  m.push_back({ "GetDistance", [=](Obs& o, int) { o << b->GetDistance(x, z); } });
  m.push_back({ "GetDistanceVector", [=](Obs& o, int) { auto p = b->GetDistanceVector(x, z); o << p.first << p.second; } });
  m.push_back({ "GetNeighbor", [=](Obs& o, int) { for (size_t i = 0; i < b->GetGamma(); ++i) { o << b->GetNeighbor(x, i); } } });
  m.push_back({ "copy", [=](Obs& o, int) { bwsl::Bravais c(*b); o << c.GetRealSpace(z); } });
  m.push_back({ "build a lattice", [=](Obs& o, int) { bwsl::Lattice l(*b, std::vector<size_t>(d, 2)); o << l.GetDistance(0, 1) << l.GetNeighbors(1); } });
}
template<class S>
static void
common_queries(std::shared_ptr<typename S::T const> a, Made& m)
{
  m.push_back({ "all queries", [=](Obs& o, int) { S::obs(*a, o); } });
  m.push_back({ "copy", [=](Obs& o, int) { typename S::T b(*a); S::obs(b, o); } });
  m.push_back({ "copy and change", [=](Obs& o, int) { typename S::T b(*a); S::op(b, 1); S::op(b, 0); S::obs(b, o); } });
}
template<class S>
static void
save_query(std::shared_ptr<typename S::T const> a, Made& m)
{
  m.push_back({ "save", [=](Obs& o, int) { o << accs::save(*a); } });
}
template<class S>
static std::shared_ptr<typename S::T>
used(int start)
{
  auto p = std::make_shared<typename S::T>(S::make(start));
  for (int k : { 0, 1, 2, 0 }) {
    S::op(*p, k);
  }
  return p;
}

static Made
make_subject(size_t s)
{
  Made m;
  switch (s) {
    case 0: grid_queries<bwsl::HyperCubicGrid>(std::make_shared<bwsl::HyperCubicGrid>(std::vector<size_t>{ 3, 2 }, shapes::Closed), m); break;
    case 1: {
      auto g = std::make_shared<bwsl::HyperCubicGrid>(std::vector<size_t>{ 2, 3 }, shapes::Open);
      grid_queries<bwsl::HyperCubicGrid>(g, m);
      break;
    }
    case 2: lattice_queries(std::make_shared<bwsl::Lattice>(bwsl::SquareLattice, std::vector<size_t>{ 3, 2 }), m); break;
    case 3: lattice_queries(std::make_shared<bwsl::Lattice>(bwsl::TriangularLattice, std::vector<size_t>{ 2, 3 }, shapes::Open), m); break;
    case 4: {
      auto l = std::make_shared<bwsl::Lattice>(bwsl::TriangularLattice, std::vector<size_t>{ 2, 2 });
      lattice_queries(l, m);
      grid_queries<bwsl::Lattice>(l, m);
      break;
    }
    case 5: bravais_queries(std::make_shared<bwsl::Bravais>(bwsl::TriangularLattice), m); break;
    case 6: bravais_queries(std::make_shared<bwsl::Bravais>(lat::all()[13].make()), m); break;
    case 7: {
      // the built in lattices themselves are shared by everybody
      for (auto const* b : { &bwsl::ChainLattice, &bwsl::SquareLattice, &bwsl::TriangularLattice }) {
        auto d = b->GetDim();
        m.push_back({ "built in lattice", [=](Obs& o, int) { bwsl::Lattice l(*b, std::vector<size_t>(d, 3)); subj::lattice_obs(l, o); } });
        m.push_back({ "built in open lattice", [=](Obs& o, int) { bwsl::Lattice l(*b, std::vector<size_t>(d, 2), shapes::Open); o << l.GetPosition(1) << l.GetNeighbors(0); } });
      }
      break;
    }
#define ACC(N, S)                                                              \
  case N: {                                                                    \
    auto a = used<subj::S>(0);                                                 \
    common_queries<subj::S>(a, m);                                             \
    save_query<subj::S>(a, m);
    ACC(8, Kahan)
      m.push_back({ "Sum", [=](Obs& o, int) { o << a->Sum() << a->Count(); } });
      m.push_back({ "Mean", [=](Obs& o, int) { o << a->Mean(); } });
      break;
    }
    ACC(9, Neumaier)
      m.push_back({ "Sum", [=](Obs& o, int) { o << a->Sum() << a->Count(); } });
      m.push_back({ "Mean", [=](Obs& o, int) { o << a->Mean(); } });
      break;
    }
    ACC(10, Welford)
      m.push_back({ "Mean", [=](Obs& o, int) { o << a->Mean() << a->Sum(); } });
      m.push_back({ "Variance", [=](Obs& o, int) { o << a->Variance(true) << a->StandardDeviation(false); } });
      m.push_back({ "Error", [=](Obs& o, int) { o << a->Error(false) << a->ScaledVariance(); } });
      break;
    }
    ACC(11, West)
      m.push_back({ "Mean", [=](Obs& o, int) { o << a->Mean() << a->Sum(); } });
      m.push_back({ "Variance", [=](Obs& o, int) { o << a->PopulationVariance() << a->SampleReliabilityVariance(); } });
      break;
    }
    ACC(12, Naive)
      m.push_back({ "Mean", [=](Obs& o, int) { o << a->Mean() << a->Sum(); } });
      m.push_back({ "Variance", [=](Obs& o, int) { o << a->Variance(true) << a->StandardDeviation(false); } });
      break;
    }
    ACC(13, Hist)
      m.push_back({ "GetResults", [=](Obs& o, int) { o << a->GetResults() << a->GetResults(1); } });
      m.push_back({ "GetResult", [=](Obs& o, int) { o << a->GetResult(0) << a->GetCount(2) << a->GetNbins(); } });
      break;
    }
    case 14: {
      auto a = std::make_shared<bwsl::montecarlo::MoveStats>("name of a move");
      a->Propose();
      a->Accept(0.25);
      a->Propose();
      a->Reject(0.5);
      save_query<subj::Stats>(a, m);
      m.push_back({ "ratios", [=](Obs& o, int) { o << a->GetAcceptedRatio() << a->GetRejectedRatio() << a->GetImpossibleRatio() << a->GetAverageProbability(); } });
      m.push_back({ "name", [=](Obs& o, int) { o << a->GetName(); } });
      m.push_back({ "print", [=](Obs& o, int) { std::ostringstream os; os << *a; o << os.str(); } });
      m.push_back({ "copy and refuse", [=](Obs& o, int) { auto b = *a; try { b.Accept(1); } catch (std::exception const& e) { o << std::string(e.what()); } } });
      break;
    }
    case 15: {
      auto a = std::make_shared<bwsl::RationalNum<long>>(-7L, 12L);
      m.push_back({ "convert", [=](Obs& o, int) { o << static_cast<double>(*a) << static_cast<long>(*a) << a->IsInt() << a->GetNum() << a->GetDen(); } });
      m.push_back({ "print", [=](Obs& o, int) { std::ostringstream os; os << *a; o << os.str() << bwsl::ToString(*a); } });
      m.push_back({ "arithmetic", [=](Obs& o, int) { auto b = *a + *a * *a - bwsl::RationalNum<long>(1, 3); o << b.GetNum() << b.GetDen(); b = *a / *a + 1L; o << b.GetNum(); } });
      m.push_back({ "compare", [=](Obs& o, int) { bwsl::RationalNum<long> b(1, 5); o << (*a < b) << (*a == *a) << (*a > b) << (*a <= 1L) << (2L >= *a); } });
      m.push_back({ "read another", [](Obs& o, int t) { std::istringstream is(t == 0 ? "3//9 x" : "4//-6"); bwsl::RationalNum<long> r(1, 1); is >> r; o << r.GetNum() << r.GetDen(); } });
      m.push_back({ "read a text", [](Obs& o, int t) { bwsl::RationalNum<long> r(1, 1); bwsl::FromString(t == 0 ? "6//4" : t == 1 ? "-123456789012//7" : "5//1000000007", r); o << r.GetNum() << r.GetDen(); } });
      m.push_back({ "refuse a text", [](Obs& o, int t) { bwsl::RationalNum<long> r(1, 1); try { bwsl::FromString(t == 0 ? "6/4" : "x", r); } catch (std::exception const& e) { o << std::string(e.what()); } o << r.GetNum() << r.GetDen(); } });
      break;
    }
    case 16: {
      auto a = std::make_shared<bwsl::Approx>(2.0);
      a->SetAbs(0.125);
      common_queries<subj::Approximate>(a, m);
      m.push_back({ "equal", [=](Obs& o, int) { o << (*a == 2.1) << (2.2 == *a) << (*a < 3.0); } });
      break;
    }
    case 17: {
      auto v = std::make_shared<std::vector<double>>(std::vector<double>{ 0.5, 1.5, 2.0, 4.0 });
      auto sz = std::make_shared<std::vector<size_t>>(std::vector<size_t>{ 2, 3 });
      m.push_back({ "sums", [=](Obs& o, int) { o << bwsl::accumulate_product(*v) << bwsl::accumulate_sum(*v) << bwsl::l2norm(*v) << bwsl::sum_squared<std::vector<double>, double>(*v); } });
      m.push_back({ "extrema", [=](Obs& o, int) { o << bwsl::max(*v) << bwsl::min(*v); } });
      m.push_back({ "get_inverted", [=](Obs& o, int) { o << bwsl::get_inverted(*v); } });
      m.push_back({ "sum_into own", [=](Obs& o, int) { std::vector<double> w{ 1, 2, 3, 4 }; bwsl::sum_into(w, *v); bwsl::subtract_into(w, *v); bwsl::invert(w); o << w; } });
      m.push_back({ "choose_between", [=](Obs& o, int t) { std::mt19937_64 r(static_cast<unsigned>(t)); for (int i = 0; i < 5; ++i) { o << bwsl::choose_between(*v, r) << bwsl::choose_between_psums(*v, r) << bwsl::choose_with_probability(0.5, r); } } });
      m.push_back({ "index_to_array", [=](Obs& o, int) { auto c = bwsl::index_to_array<std::vector<long>>(4, *sz); o << c << bwsl::array_to_index(c, *sz); } });
      m.push_back({ "upper_bound", [=](Obs& o, int) { o << (bwsl::upper_bound(v->begin(), v->end(), 1.5) - v->begin()); } });
      m.push_back({ "cbinomial", [](Obs& o, int) { for (long n = 0; n < 12; ++n) { o << bwsl::cbinomial(n + 20, n); } o << bwsl::cbinomial(30L, 7L); } });
      m.push_back({ "get_gcd", [](Obs& o, int) { o << bwsl::get_gcd(12, 18) << bwsl::get_gcd(1071L, 462L) << bwsl::sgn(-2.0) << bwsl::lerp(1.0, 2.0, 0.25) << bwsl::lerpi(1, 3, 1.5, 2.5); } });
      m.push_back({ "pairs", [](Obs& o, int) { for (size_t i = 0; i < 9; ++i) { auto p = bwsl::pairs::GetPair(i, 3); o << p.first << bwsl::pairs::GetPairIndex(p, 3); } } });
      m.push_back({ "accumulate", [=](Obs& o, int) { bwsl::accumulators::NeumaierAccumulator a; o << bwsl::apply_accumulator(v->begin(), v->end(), a).Sum(); } });
      break;
    }
    case 18: {
      auto e = std::make_shared<std::mt19937_64>(42);
      e->discard(10);
      m.push_back({ "save engine", [=](Obs& o, int) { o << accs::save(*e); } });
      m.push_back({ "restore engine", [=](Obs& o, int) { auto s = accs::save(*e); std::mt19937_64 f(1); accs::load(s, f); o << static_cast<double>(f() >> 12); } });
      m.push_back({ "enum names", [](Obs& o, int t) { o << ToString(Red) << ToString(DarkBlue); Colour c = Red; FromString(c, "Green"); o << static_cast<int>(c); try { FromString(c, t == 0 ? "pink" : "black"); } catch (std::exception const& x) { o << std::string(x.what()); } } });
      m.push_back({ "compare_files", [](Obs& o, int) { o << bwsl::compare_files(dir + "/one", dir + "/two") << bwsl::compare_files(dir + "/one", dir + "/one") << bwsl::compare_files(dir + "/one", dir + "/none"); } });
      break;
    }
    case 19: {
      auto g = std::make_shared<bwsl::ObservableGroup<std::string>>(dir + "/group", std::initializer_list<std::string>{ "one", "two" });
      g->Measure("one", 1.25);
      m.push_back({ "save", [=](Obs& o, int) { o << accs::save(*g); } });
      m.push_back({ "copy", [=](Obs& o, int) { auto h = *g; h.Measure("two", 0.5); o << accs::save(h); } });
      m.push_back({ "copy and refuse", [=](Obs& o, int t) { auto h = *g; try { h.Measure(t == 0 ? "three" : "four", 1); } catch (std::exception const& e) { o << std::string(e.what()); } } });
      break;
    }
    default: break;
  }
  return m;
}
static char const* const kNames[] = { "closed grid", "open grid", "closed square lattice", "open triangular lattice", "closed triangular lattice with its grid", "triangular infinite lattice", "infinite lattice in three dimensions", "built in lattices", "KahanAccumulator", "NeumaierAccumulator", "KnuthWelfordAccumulator", "WestAccumulator", "NaiveInteger", "HistAccumulator", "MoveStats", "RationalNum", "Approx", "containers", "engine, enumeration and files", "ObservableGroup" };
// numbers of queries, so that the explorer itself never touches the library
static size_t const kQueries[] = { 8, 8, 15, 14, 23, 10, 10, 6, 6, 6, 7, 6, 6, 6, 5, 7, 4, 11, 4, 3 };

static Made made;
static size_t which = SIZE_MAX;

size_t
subjects()
{
  return sizeof kNames / sizeof *kNames;
}
char const*
subject_name(size_t s)
{
  return kNames[s];
}
size_t
queries(size_t s)
{
  return kQueries[s];
}
char const*
query_name(size_t, size_t q)
{
  return q < made.size() ? made[q].first : "?";
}
void
prepare(size_t s, std::string const& d)
{
  dir = d;
  // (the standard library fills these tables on first use, which it may do
  // from several threads)
  auto const& table = std::use_facet<std::ctype<char>>(std::locale::classic());
  for (int x = 0; x < 256; ++x) {
    table.narrow(static_cast<char>(x), x == 1 ? '\2' : '\1');
    table.widen(static_cast<char>(x));
  }
  if (s == 18) {
    for (auto const* n : { "/one", "/two" }) {
      std::ofstream os(dir + n);
      os << std::string(3000, 'x') << n;
    }
  }
  made = make_subject(s);
  which = s;
  if (s < subjects() && made.size() != kQueries[s]) {
    std::fprintf(stderr, "mc: subject %zu has %zu queries\n", s, made.size());
    std::_Exit(3);
  }
}
static std::string
text(Obs const& o)
{
  std::string s = o.s;
  for (auto x : o.v) {
    if (std::isnan(x)) {
      s += "nan;";
      continue;
    }
    uint64_t b;
    std::memcpy(&b, &x, 8);
    for (int i = 60; i >= 0; i -= 4) {
      s += "0123456789abcdef"[(b >> i) & 15];
    }
    s += ';';
  }
  return s;
}
std::string
ask(size_t, size_t q, int thread)
{
  Obs o;
  try {
    made[q].second(o, thread);
  } catch (std::exception const& e) {
    o << std::string("exception ") << std::string(e.what());
  }
  return text(o);
}

// ---- histories of own objects
template<class S>
static void
life(Obs& o, int thread)
{
  for (int start = 0; start < S::starts; ++start) {
    auto a = S::make(start);
    for (int k = 0; k < S::ops; ++k) {
      auto r = S::op(a, (k + thread) % S::ops);
      o << r;
    }
    S::obs(a, o);
    auto b(a);
    S::op(b, 0);
    S::obs(b, o);
    S::obs(a, o);
  }
}
template<class S>
static void
archive(Obs& o, int thread)
{
  auto a = S::make(0);
  S::op(a, thread % S::ops);
  auto s = accs::save(a);
  auto b = S::make(0);
  accs::load(s, b);
  S::obs(b, o);
}
template<class I>
static void
group_life(Obs& o, int thread)
{
  using G = subj::GroupOf<I>;
  auto f = file_of(thread, "group");
  bwsl::ObservableGroup<I> g(f, { G::key(0), G::key(1) });
  g.AddObservable(G::key(2));
  g.PrintHeaders();
  for (int r = 0; r < 2; ++r) {
    g.Measure(G::key(0), 1.5 * r + thread);
    g.Measure(G::key(1), 0.25);
    g.Measure(G::key(2), -thread);
    g.PrintAndReset(17);
  }
  o << slurp_and_remove(f);
}
struct Script
{
  char const* name;
  void (*fn)(Obs&, int);
};
static Script const kScripts[] = {
  { "Kahan", life<subj::Kahan> },
  { "Neumaier", life<subj::Neumaier> },
  { "Welford", life<subj::Welford> },
  { "West", life<subj::West> },
  { "Naive", life<subj::Naive> },
  { "Hist", life<subj::Hist> },
  { "Stats", life<subj::Stats> },
  { "Result", life<subj::Result> },
  { "Rational", life<subj::Rational> },
  { "Lin", life<subj::Lin> },
  { "Log", life<subj::Log> },
  { "Approx", life<subj::Approximate> },
  { "Grid", life<subj::Grid> },
  { "Bravais", life<subj::Cell> },
  { "Lattice", life<subj::Latt> },
  { "archive of Welford", archive<subj::Welford> },
  { "archive of Hist", archive<subj::Hist> },
  { "archive of Stats", archive<subj::Stats> },
  { "Group", group_life<std::string> },
  { "IntGroup", group_life<int> },
};
size_t
scripts()
{
  return sizeof kScripts / sizeof *kScripts;
}
char const*
script_name(size_t s)
{
  return kScripts[s].name;
}
std::string
play(size_t s, int thread)
{
  Obs o;
  try {
    kScripts[s].fn(o, thread);
  } catch (std::exception const& e) {
    o << std::string("exception ") << std::string(e.what());
  }
  return text(o);
}
} // namespace c32

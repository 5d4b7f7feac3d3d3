// Every class of the library as a subject: ways to make one, a small alphabet
// of operations that change it, and the answers of all its queries.
#pragma once
#include "accs.hpp"
#include "lattices.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <bwsl/Accumulators.hpp>
#include <bwsl/Approx.hpp>
#include <bwsl/HistAccumulator.hpp>
#include <bwsl/LinSpace.hpp>
#include <bwsl/LogSpace.hpp>
#include <bwsl/MonteCarloUtils.hpp>
#include <bwsl/ObservableGroup.hpp>
#include <bwsl/RationalNum.hpp>
#include <bwsl/accumulators/NaiveIntegerAccumulator.hpp>

namespace subj {

/// Answers of queries
struct Obs
{
  std::vector<double> v;
  std::string s;
  template<class T>
  Obs& operator<<(T x)
  {
    v.push_back(static_cast<double>(x));
    return *this;
  }
  Obs& operator<<(std::string const& x)
  {
    s += x + "|";
    return *this;
  }
  template<class T>
  Obs& operator<<(std::vector<T> const& x)
  {
    v.push_back(static_cast<double>(x.size()));
    for (auto const& y : x) {
      *this << y;
    }
    return *this;
  }
  bool operator==(Obs const& o) const
  {
    if (s != o.s || v.size() != o.v.size()) {
      return false;
    }
    for (size_t i = 0; i < v.size(); ++i) {
      if (!accs::same(v[i], o.v[i])) {
        return false;
      }
    }
    return true;
  }
  void hash(mc::H& h) const
  {
    for (auto x : v) {
      h.add(std::isnan(x) ? 1e306 : x);
    }
    h.add(s);
  }
  std::string str() const
  {
    std::ostringstream os;
    os.precision(17);
    for (auto x : v) {
      os << x << ' ';
    }
    os << s.substr(0, 400);
    return os.str();
  }
};

template<class A>
struct SimpleSum
{
  using T = A;
  static constexpr int starts = 1, ops = 5;
  static T make(int) { return T(); }
  static std::string op(T& a, int k)
  {
    static double const v[] = { 0.1, 1e16, -1e16, -3.5 };
    if (k == 4) {
      a.Reset();
      return "Reset";
    }
    a.Add(v[k]);
    return "Add " + std::to_string(v[k]);
  }
  static void obs(T const& a, Obs& o)
  {
    o << a.Count() << a.Sum();
    if (a.Count() > 0) {
      o << a.Mean();
    }
  }
};
struct Kahan : SimpleSum<bwsl::accumulators::KahanAccumulator>
{
  static constexpr char const* name = "KahanAccumulator";
};
struct Neumaier : SimpleSum<bwsl::accumulators::NeumaierAccumulator>
{
  static constexpr char const* name = "NeumaierAccumulator";
};
struct Welford
{
  using T = bwsl::accumulators::KnuthWelfordAccumulator;
  static constexpr char const* name = "KnuthWelfordAccumulator";
  static constexpr int starts = 1, ops = 4;
  static T make(int) { return T(); }
  static std::string op(T& a, int k)
  {
    static double const v[] = { 0.1, 1e8, -3.25 };
    if (k == 3) {
      a.Reset();
      return "Reset";
    }
    a.Add(v[k]);
    return "Add " + std::to_string(v[k]);
  }
  static void obs(T const& a, Obs& o)
  {
    o << a.Count() << a.Sum();
    if (a.Count() > 0) {
      o << a.Mean();
    }
    for (bool b : { false, true }) {
      o << a.Variance(b) << a.StandardDeviation(b) << a.Error(b);
    }
    o << a.ScaledVariance();
  }
};
struct West
{
  using T = bwsl::accumulators::WestAccumulator;
  static constexpr char const* name = "WestAccumulator";
  static constexpr int starts = 1, ops = 5;
  static T make(int) { return T(); }
  static std::string op(T& a, int k)
  {
    static double const v[] = { 0.1, 1e8, -3.25, 7 };
    static double const w[] = { 1.0, 0.25, 3.0, -1.0 };
    if (k == 4) {
      a.Reset();
      return "Reset";
    }
    a.Add(v[k], w[k]);
    return "Add " + std::to_string(v[k]);
  }
  static void obs(T const& a, Obs& o)
  {
    o << a.Count() << a.Sum();
    if (a.Count() > 0) {
      o << a.Mean();
    }
    o << a.PopulationVariance() << a.SampleFrequencyVariance() << a.SampleReliabilityVariance();
  }
};
struct Naive
{
  using T = bwsl::NaiveInteger;
  static constexpr char const* name = "NaiveInteger";
  static constexpr int starts = 1, ops = 5;
  static T make(int) { return T(); }
  static std::string op(T& a, int k)
  {
    static long const v[] = { 1, -3, 1000000007L, 65536 };
    if (k == 4) {
      a.Reset();
      return "Reset";
    }
    a.Add(v[k]);
    return "Add " + std::to_string(v[k]);
  }
  static void obs(T const& a, Obs& o)
  {
    o << a.Count() << std::to_string(a.Sum());
    if (a.Count() > 0) {
      o << a.Mean();
    }
    for (bool b : { false, true }) {
      o << a.Variance(b) << a.StandardDeviation(b);
    }
    o << a.ScaledVariance();
  }
};
struct Hist
{
  using T = bwsl::HistAccumulator;
  static constexpr char const* name = "HistAccumulator";
  static constexpr int starts = 2, ops = 8;
  static T make(int k) { return k == 0 ? T() : T(2); }
  static std::string op(T& a, int k)
  {
    switch (k) {
      case 0: a.ForceAdd(0, 0.1); return "ForceAdd 0";
      case 1: a.ForceAdd(2, 1e16); return "ForceAdd 2";
      case 2: a.ForceAdd(1); return "ForceAdd 1";
      case 3: a.Resize(3); return "Resize 3";
      case 4: a.Resize(1); return "Resize 1";
      case 5: a.Reset(); return "Reset";
      case 6:
        if (a.GetNbins() > 0) {
          a.Add(a.GetNbins() - 1, -1e16);
          return "Add last";
        }
        return "nothing";
      default: a.Resize(0); return "Resize 0";
    }
  }
  static void obs(T const& a, Obs& o)
  {
    o << a.GetCount() << a.GetNbins() << a.GetResults();
    for (size_t i = 0; i < a.GetNbins(); ++i) {
      o << a.GetCount(i) << a.GetResult(i) << a.GetResults(i);
    }
  }
};
struct Stats
{
  using T = bwsl::montecarlo::MoveStats;
  static constexpr char const* name = "MoveStats";
  static constexpr int starts = 2, ops = 7;
  static T make(int k) { return k == 0 ? T() : T("a long name of a move, longer than a small string"); }
  static std::string op(T& a, int k)
  {
    using R = bwsl::montecarlo::MoveResult;
    try {
      switch (k) {
        case 0: a.Propose(); return "Propose";
        case 1: a.Accept(0.3); return "Accept";
        case 2: a.Reject(0.1); return "Reject";
        case 3: a.Impossible(); return "Impossible";
        case 4: a.Add(R::Accept(0.9)); return "Add accepted";
        case 5: a.Add(R::Reject(0.2)); return "Add rejected";
        default: a.Reset(); return "Reset";
      }
    } catch (bwsl::montecarlo::exception::MoveInvalidSequence const& e) {
      return "refused";
    }
  }
  static void obs(T const& a, Obs& o)
  {
    o << a.GetAcceptedRatio() << a.GetRejectedRatio() << a.GetImpossibleRatio() << a.GetAverageProbability();
    // whether there is a pending proposal
    auto c = accs::save(a);
    T d;
    accs::load(c, d);
    try {
      d.Propose();
      o << 0;
    } catch (bwsl::montecarlo::exception::MoveInvalidSequence const&) {
      o << 1;
    }
  }
};
inline std::string
group_file()
{
  static std::string const f = mc::scratch + "/group-" + std::to_string(getpid()) + ".csv";
  return f;
}
inline std::string
slurp(std::string const& f)
{
  std::ifstream is(f, std::ios::binary);
  std::ostringstream os;
  os << is.rdbuf();
  return os.str();
}
/// Answers of a group: prints a restored one to a file (so only what an
/// archive keeps is seen), C22 looks at the files themselves
template<class I>
struct GroupOf
{
  using T = bwsl::ObservableGroup<I>;
  static constexpr int starts = 2, ops = 7;
  static I key(int k)
  {
    if constexpr (std::is_same_v<I, std::string>) {
      static char const* const n[] = { "energy", "a", "z" };
      return n[k];
    } else {
      return static_cast<I>(10 - k);
    }
  }
  static T make(int k) { return k == 0 ? T(group_file()) : T(group_file(), { key(0), key(1) }); }
  static std::string measure(T& a, int k, double x)
  {
    try {
      a.Measure(key(k), x);
      return "Measure " + std::to_string(k);
    } catch (std::exception const&) {
      return "refused";
    }
  }
  static std::string op(T& a, int k)
  {
    switch (k) {
      case 0: return measure(a, 0, 0.1);
      case 1: return measure(a, 1, 1e16);
      case 2: return measure(a, 2, 3);
      case 3: return measure(a, 1, -1e16);
      case 4: a.AddObservable(key(2)); return "AddObservable";
      case 5: a.AddObservable(key(0)); return "AddObservable known";
      default: {
        ::unlink(group_file().c_str());
        a.PrintAndReset(17);
        return slurp(group_file());
      }
    }
  }
  static void obs(T const& a, Obs& o) { o << accs::save(a); }
  /// the whole file after printing
  static std::string file(T& a)
  {
    ::unlink(group_file().c_str());
    a.PrintHeaders();
    a.PrintAndReset(17);
    auto s = slurp(group_file());
    ::unlink(group_file().c_str());
    return s;
  }
};
struct Group : GroupOf<std::string>
{
  static constexpr char const* name = "ObservableGroup of strings";
};
struct IntGroup : GroupOf<int>
{
  static constexpr char const* name = "ObservableGroup of integers";
};

// ---- not serializable
struct Result
{
  using T = bwsl::montecarlo::MoveResult;
  static constexpr char const* name = "MoveResult";
  static constexpr int starts = 4, ops = 2;
  static T make(int k) { return k == 0 ? T() : k == 1 ? T::Accept(0.3) : k == 2 ? T::Reject(0.7) : T(bwsl::montecarlo::MoveStatus::Impossible, 0.5); }
  static std::string op(T& a, int k)
  {
    a = k == 0 ? T::Accept(0.25) : T::Reject(0.125);
    return "assign";
  }
  static void obs(T const& a, Obs& o) { o << a.IsAccepted() << a.IsRejected() << a.IsImpossible() << a.Probability() << static_cast<int>(a.GetStatus()); }
};
struct Rational
{
  using T = bwsl::RationalNum<long>;
  static constexpr char const* name = "RationalNum";
  static constexpr int starts = 4, ops = 3;
  static T make(int k) { return k == 0 ? T(0, 1) : k == 1 ? T(1, 2) : k == 2 ? T(-7, 3) : T(1000000007L, 12); }
  static std::string op(T& a, int k)
  {
    if (k == 0) {
      a = a + T(1, 3);
    } else if (k == 1) {
      a = a * T(-1, 2);
    } else {
      std::istringstream is("5//6");
      is >> a;
    }
    return "arithmetic";
  }
  static void obs(T const& a, Obs& o)
  {
    std::ostringstream os;
    os << a;
    T b(a);
    o << os.str() << static_cast<double>(b) << (a < T(1, 7)) << (a == T(1, 2));
  }
};
template<class S>
struct SpaceOf
{
  using T = S;
  static constexpr int starts = 3, ops = 2;
  static std::string op(T& a, int k)
  {
    if (k == 0) {
      ++a;
      return "increment";
    }
    return std::to_string(a());
  }
  static void obs(T const& x, Obs& o)
  {
    auto& a = const_cast<T&>(x); // (the queries are not const)
    o << *a << a.Collect(4);
    int n = 0;
    for (auto v : a) {
      o << v;
      if (++n > 20) {
        break;
      }
    }
    o << (a == a.begin()) << (a == a.end());
  }
};
struct Lin : SpaceOf<bwsl::LinSpace<double>>
{
  static constexpr char const* name = "LinSpace";
  static T make(int k) { return k == 0 ? T(0, 1, 3) : k == 1 ? T(-1, 5, 7) : T(0.1, 0.3, 1); }
};
struct Log : SpaceOf<bwsl::LogSpace<double>>
{
  static constexpr char const* name = "LogSpace";
  static T make(int k) { return k == 0 ? T(1.0, 8.0, 3) : k == 1 ? T(-1L, 3L, 5, 10.0) : T(0.1, 0.3, 1); }
};
struct Approximate
{
  using T = bwsl::Approx;
  static constexpr char const* name = "Approx";
  static constexpr int starts = 3, ops = 3;
  static T make(int k) { return k == 0 ? T(1.0) : k == 1 ? T(-2.5) : T(0.0); }
  static std::string op(T& a, int k)
  {
    if (k == 0) {
      a.SetAbs(0.3);
    } else if (k == 1) {
      a.SetRel(0.5);
    } else {
      a.SetAbs(0).SetRel(1e-3);
    }
    return "tolerance";
  }
  static void obs(T const& a, Obs& o)
  {
    for (double x : { 0.0, 1.0, 1.0 + 1e-14, 1.25, -2.5, -2.7, -3.0, 0.2, 1e-20, 1.4, 1.0005 }) {
      o << (a == x) << (a != x) << (a < x) << (a > x) << (a <= x) << (a >= x) << (x == a) << (x <= a) << (x > a);
    }
  }
};
inline void
grid_obs(bwsl::HyperCubicGrid const& g, Obs& o)
{
  o << g.GetDim() << g.HasOpenBoundaries() << g.HasClosedBoundaries() << g.GetSize() << g.GetNumSites() << (g.GetBoundaries() == bwsl::HyperCubicGrid::boundaries_t::Open);
  for (size_t a = 0; a < g.GetNumSites(); ++a) {
    o << g.GetCoordinates(a) << g.GetIndex(g.GetCoordinates(a)) << g.IndexIsValid(a);
    for (size_t b = 0; b < g.GetNumSites(); ++b) {
      o << g.GetJump(a, b) << g.GetPairIndex(a, b);
      if (g.HasClosedBoundaries()) {
        o << g.GetMappedSite(a, b) << g.GetUnMappedSite(b, a);
      }
    }
  }
}
struct Grid
{
  using T = bwsl::HyperCubicGrid;
  static constexpr char const* name = "HyperCubicGrid";
  static constexpr int starts = 4, ops = 1;
  static T make(int k)
  {
    switch (k) {
      case 0: return T({ 3 }, shapes::Closed);
      case 1: return T({ 2, 3 }, shapes::Open);
      case 2: return T({ 1, 2, 4 }, shapes::Closed);
      default: return T({ 5 }, shapes::Open);
    }
  }
  static std::string op(T& a, int)
  {
    a = T({ 2, 2 }, shapes::Closed);
    return "assign";
  }
  static void obs(T const& a, Obs& o) { grid_obs(a, o); }
};
struct Cell
{
  using T = bwsl::Bravais;
  static constexpr char const* name = "Bravais";
  static constexpr int starts = 4, ops = 1;
  static T make(int k) { return lat::all()[static_cast<size_t>(k == 0 ? 3 : k == 1 ? 8 : k == 2 ? 13 : 4)].make(); }
  static std::string op(T& a, int)
  {
    a = bwsl::ChainLattice;
    return "assign";
  }
  static void obs(T const& a, Obs& o)
  {
    o << a.GetDim() << a.GetGamma();
    shapes::Coords z(a.GetDim(), 0), x(a.GetDim(), 1);
    x[0] = -2;
    o << a.GetRealSpace(x) << a.GetInverseVector(a.GetRealSpace(x)) << a.GetReciprocalSpace(x) << a.GetVector(x, z) << a.GetDistance(z, x) << a.GetDistanceVector(z, x).second;
    for (size_t i = 0; i < a.GetGamma(); ++i) {
      o << a.GetNeighbor(x, i);
    }
  }
};
inline void
lattice_obs(bwsl::Lattice const& l, Obs& o)
{
  grid_obs(l, o);
  if (l.GetNumSites() == 0) {
    return;
  }
  o << l.GetCoordination();
  for (size_t a = 0; a < l.GetNumSites(); ++a) {
    o << l.GetNeighbors(a) << l.GetPosition(a) << l.GetCoordination(a);
    if (l.HasClosedBoundaries()) {
      o << l.GetMomentum(a);
    }
    for (size_t b = 0; b < l.GetNumSites(); ++b) {
      o << l.GetDistance(a, b) << l.GetVector(a, b) << l.AreNeighbors(a, b);
    }
  }
  std::vector<int> occ(l.GetNumSites(), 0);
  occ[0] = 1;
  occ[occ.size() / 2] += 2;
  o << l.ComputeSk(occ, 1.5);
}
struct Latt
{
  using T = bwsl::Lattice;
  static constexpr char const* name = "Lattice";
  static constexpr int starts = 4, ops = 1;
  static T make(int k)
  {
    switch (k) {
      case 0: return T(bwsl::SquareLattice, { 2, 3 });
      case 1: return T(bwsl::TriangularLattice, { 3, 2 }, shapes::Open);
      case 2: return T(bwsl::ChainLattice, { 5 });
      default: return T(lat::all()[13].make(), { 2, 1, 2 });
    }
  }
  static std::string op(T& a, int)
  {
    a = T(bwsl::ChainLattice, { 4 });
    return "assign";
  }
  static void obs(T const& a, Obs& o) { lattice_obs(a, o); }
};

template<class S>
inline Obs
look(typename S::T const& x)
{
  Obs o;
  S::obs(x, o);
  return o;
}
} // namespace subj

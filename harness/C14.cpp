#include "mc.hpp"
#include <bwsl/RelationalUtils.hpp>
#include <memory>
#include <set>

// The orders are given by ranks: any map from elements to ranks is a strict
// weak ordering of the elements of all types together, and every strict weak
// ordering of so many elements is one of them.
static int rankA[8], rankB[8];
static int eqclass[8]; // finer than the order, for the variants with equality
static unsigned long eqcalls;

#define VALUE(N)                                                               \
  struct N                                                                     \
  {                                                                            \
    explicit N(int i) : id(i) {}                                               \
    N(N const&) = delete; /* operators must not copy */                        \
    auto operator=(N const&) -> N& = delete;                                   \
    int id;                                                                    \
  };

// one type, from a less-than
VALUE(One)
inline bool operator<(One const& a, One const& b) { return rankA[a.id] < rankA[b.id]; }
OVERLOADRELATIONAL(One, One)

// two types in both directions, and each with itself
VALUE(P)
VALUE(Q)
inline bool operator<(P const& a, P const& b) { return rankA[a.id] < rankA[b.id]; }
inline bool operator<(Q const& a, Q const& b) { return rankB[a.id] < rankB[b.id]; }
inline bool operator<(P const& a, Q const& b) { return rankA[a.id] < rankB[b.id]; }
inline bool operator<(Q const& a, P const& b) { return rankB[a.id] < rankA[b.id]; }
OVERLOADRELATIONAL(P, P)
OVERLOADRELATIONAL(Q, Q)
OVERLOADRELATIONAL(P, Q)
OVERLOADRELATIONAL(Q, P)

// a type and a builtin one
VALUE(K)
inline bool operator<(K const& a, K const& b) { return rankA[a.id] < rankA[b.id]; }
inline bool operator<(K const& a, int const& b) { return rankA[a.id] < b; }
inline bool operator<(int const& a, K const& b) { return a < rankA[b.id]; }
OVERLOADRELATIONAL(K, K)
OVERLOADRELATIONAL(K, int)
OVERLOADRELATIONAL(int, K)

// with a given equality
VALUE(E1)
inline bool operator<(E1 const& a, E1 const& b) { return rankA[a.id] < rankA[b.id]; }
inline bool operator==(E1 const& a, E1 const& b) { ++eqcalls; return rankA[a.id] == rankA[b.id] && eqclass[a.id] == eqclass[b.id]; }
OVERLOADRELATIONALNOEQ(E1, E1)
VALUE(E2)
inline bool operator<(E1 const& a, E2 const& b) { return rankA[a.id] < rankB[b.id]; }
inline bool operator<(E2 const& a, E1 const& b) { return rankB[a.id] < rankA[b.id]; }
inline bool operator==(E1 const& a, E2 const& b) { ++eqcalls; return rankA[a.id] == rankB[b.id] && eqclass[a.id] == 0; }
inline bool operator==(E2 const& a, E1 const& b) { ++eqcalls; return rankB[a.id] == rankA[b.id] && eqclass[b.id] == 0; }
OVERLOADRELATIONALNOEQ(E1, E2)
OVERLOADRELATIONALNOEQ(E2, E1)

// class templates
template<class T>
struct TA
{
  explicit TA(int i) : id(i) {}
  TA(TA const&) = delete;
  int id;
};
template<class T>
struct TB
{
  explicit TB(int i) : id(i) {}
  TB(TB const&) = delete;
  int id;
};
template<class T> inline bool operator<(TA<T> const& a, TA<T> const& b) { return rankA[a.id] < rankA[b.id]; }
template<class T> inline bool operator<(TA<T> const& a, TB<T> const& b) { return rankA[a.id] < rankB[b.id]; }
template<class T> inline bool operator<(TB<T> const& a, TA<T> const& b) { return rankB[a.id] < rankA[b.id]; }
template<class T> inline bool operator<(TA<T> const& a, T const& b) { return T(rankA[a.id]) < b; }
template<class T> inline bool operator<(T const& a, TA<T> const& b) { return a < T(rankA[b.id]); }
TEMPLATEOVERLOADRELATIONAL(TA<T>, TA<T>, T)
TEMPLATEOVERLOADRELATIONAL(TA<T>, TB<T>, T)
TEMPLATEOVERLOADRELATIONAL(TB<T>, TA<T>, T)
TEMPLATEOVERLOADRELATIONAL(TA<T>, T, T)
TEMPLATEOVERLOADRELATIONAL(T, TA<T>, T)

// declared as friends, sees private members
class F
{
public:
  explicit F(int i) : id(i) {}
  F(F const&) = delete;

private:
  FDEFINEOVERLOADRELATIONAL(F, F)
  int id;
};
inline bool operator<(F const& a, F const& b) { return rankA[a.id] < rankA[b.id]; }
OVERLOADRELATIONAL(F, F)

class G;
class Fr
{
public:
  explicit Fr(int i) : id(i) {}

private:
  FDEFINEOVERLOADRELATIONAL(Fr, G)
  FDEFINEOVERLOADRELATIONAL(G, Fr)
  int id;
};
class G
{
public:
  explicit G(int i) : id(i) {}

private:
  FDEFINEOVERLOADRELATIONAL(Fr, G)
  FDEFINEOVERLOADRELATIONAL(G, Fr)
  int id;
};
inline bool operator<(Fr const& a, G const& b) { return rankA[a.id] < rankB[b.id]; }
inline bool operator<(G const& a, Fr const& b) { return rankB[a.id] < rankA[b.id]; }
OVERLOADRELATIONAL(Fr, G)
OVERLOADRELATIONAL(G, Fr)

// the ones of the standard library must not interfere
namespace user {
VALUE(N)
inline bool operator<(N const& a, N const& b) { return rankA[a.id] < rankA[b.id]; }
OVERLOADRELATIONAL(N, N)
}

/// a and b with ranks ra and rb, equal as told
template<class A, class B>
static void
six(mc::Ctx& c, A const& a, B const& b, int ra, int rb, bool equal, char const* what)
{
  c.op(what, " ranks ", ra, " and ", rb);
  MC_CHECK(c, (a == b) == equal, what, ": == of ranks ", ra, " and ", rb);
  MC_CHECK(c, (a != b) == !equal, what, ": != of ranks ", ra, " and ", rb);
  MC_CHECK(c, (a < b) == (ra < rb), what, ": < of ranks ", ra, " and ", rb);
  MC_CHECK(c, (a > b) == (ra > rb), what, ": > of ranks ", ra, " and ", rb);
  MC_CHECK(c, (a <= b) == (ra <= rb), what, ": <= of ranks ", ra, " and ", rb);
  MC_CHECK(c, (a >= b) == (ra >= rb), what, ": >= of ranks ", ra, " and ", rb);
}

template<class T>
static void
one_type(mc::Ctx& c, int n, int const* rank, char const* what)
{
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j) {
      T a(i), b(j);
      six(c, a, b, rank[i], rank[j], rank[i] == rank[j], what);
      if (i == j) {
        six(c, a, a, rank[i], rank[i], true, what);
      }
    }
  }
}
template<class S, class T>
static void
two_types(mc::Ctx& c, int n, int m, char const* what)
{
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < m; ++j) {
      S a(i);
      T b(j);
      six(c, a, b, rankA[i], rankB[j], rankA[i] == rankB[j], what);
      six(c, b, a, rankB[j], rankA[i], rankA[i] == rankB[j], what);
    }
  }
}
template<class T>
static void
with_number(mc::Ctx& c, int n)
{
  for (int i = 0; i < n; ++i) {
    for (int r = -1; r <= n; ++r) {
      TA<T> a(i);
      six(c, a, T(r), rankA[i], r, rankA[i] == r, "template and number");
      six(c, T(r), a, r, rankA[i], rankA[i] == r, "number and template");
    }
  }
}

static int
orders(mc::Ctx& c, int* rank, int n, int m, mc::H& h)
{
  for (int i = 0; i < n; ++i) {
    rank[i] = c.choose(m);
    h.add(static_cast<uint64_t>(rank[i]));
  }
  return n;
}

MC_FAMILY(one_type, "every strict weak ordering of up to five elements of one type, every pair of elements: plain, template, friend, namespace and builtin variants", 3)
{
  mc::H h;
  int n = c.choose(mc::bound(5, 4, 6, 5)) + 1;
  orders(c, rankA, n, n, h);
  c.state(h);
  one_type<One>(c, n, rankA, "one type");
  one_type<P>(c, n, rankA, "type of a pair");
  one_type<F>(c, n, rankA, "friend");
  one_type<user::N>(c, n, rankA, "in a namespace");
  one_type<TA<int>>(c, n, rankA, "template of int");
  one_type<TA<std::string>>(c, n, rankA, "template of string");
  for (int i = 0; i < n; ++i) {
    for (int r = -1; r <= n; ++r) {
      K k(i);
      six(c, k, r, rankA[i], r, rankA[i] == r, "type and int");
      six(c, r, k, r, rankA[i], rankA[i] == r, "int and type");
    }
  }
  with_number<int>(c, n);
  with_number<long>(c, n);
  with_number<double>(c, n);
}

MC_FAMILY(two_types, "every strict weak ordering of up to three elements of each of two types, every mixed pair in both orders", 3)
{
  mc::H h;
  int n = c.choose(3) + 1;
  int m = c.choose(3) + 1;
  orders(c, rankA, n, n + m, h);
  orders(c, rankB, m, n + m, h.add(77ULL));
  c.state(h);
  two_types<P, Q>(c, n, m, "two types");
  two_types<TA<int>, TB<int>>(c, n, m, "two templates");
  two_types<TA<double>, TB<double>>(c, n, m, "two templates");
  two_types<Fr, G>(c, n, m, "friends");
  one_type<P>(c, n, rankA, "first type");
  one_type<Q>(c, m, rankB, "second type");
}

MC_FAMILY(given_equality, "every strict weak ordering of up to four elements with every finer equality: the given one decides equal and different", 3)
{
  mc::H h;
  int n = c.choose(mc::bound(4, 3, 4, 4)) + 1;
  orders(c, rankA, n, n, h);
  for (int i = 0; i < n; ++i) {
    eqclass[i] = c.choose(i > 1 ? 3 : i + 1);
    h.add(static_cast<uint64_t>(eqclass[i]));
  }
  c.state(h);
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j) {
      E1 a(i), b(j);
      auto equal = rankA[i] == rankA[j] && eqclass[i] == eqclass[j];
      six(c, a, b, rankA[i], rankA[j], equal, "given equality");
      auto before = eqcalls;
      auto different = a != b;
      MC_CHECK(c, eqcalls > before, "the given equality is not asked");
      MC_CHECK(c, different == !equal, "different");
      // the second type takes the ranks of the first one
      rankB[j] = rankA[j];
      E2 q(j);
      auto eq = rankA[i] == rankB[j] && eqclass[i] == 0;
      six(c, a, q, rankA[i], rankB[j], eq, "given equality of two types");
      six(c, q, a, rankB[j], rankA[i], eq, "given equality of two types");
    }
  }
}

// The result must be a truth value usable by the algorithms of std
MC_FAMILY(algorithms, "sorting and sets by every derived comparison agree", 2)
{
  mc::H h;
  int n = c.choose(mc::bound(5, 4, 6, 5)) + 1;
  orders(c, rankA, n, n, h);
  c.state(h);
  std::vector<std::unique_ptr<One>> v;
  for (int i = 0; i < n; ++i) {
    v.push_back(std::make_unique<One>(i));
  }
  auto up = v.size();
  std::vector<One const*> a, b;
  for (size_t i = 0; i < up; ++i) {
    a.push_back(v[i].get());
    b.push_back(v[i].get());
  }
  std::stable_sort(a.begin(), a.end(), [](auto x, auto y) { return *y > *x; });
  std::stable_sort(b.begin(), b.end(), [](auto x, auto y) { return !(*x >= *y); });
  c.op("sort");
  for (size_t i = 0; i < up; ++i) {
    MC_CHECK(c, a[i] == b[i], "position ", i);
    MC_CHECK(c, i == 0 || *a[i - 1] <= *a[i], "not sorted at ", i);
  }
  static_assert(std::is_same_v<decltype(*a[0] == *a[0]), bool> && std::is_same_v<decltype(*a[0] > *a[0]), bool>);
}

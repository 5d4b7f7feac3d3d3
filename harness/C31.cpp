#include "mc.hpp"
#include <bwsl/Approx.hpp>
#include <cmath>
#include <memory>
#include <type_traits>

using f128 = __float128;

static f128
mag(f128 x)
{
  return x < 0 ? -x : x;
}

/// What the comparison of x with v has to say
struct Want
{
  bool decided; // not at the rounding error of the boundary
  bool equal;
};
static Want
want(double x, double v, double abs, double rel)
{
  auto d = mag(static_cast<f128>(x) - v);
  auto r = mag(static_cast<f128>(rel) * v);
  auto a = mag(static_cast<f128>(abs));
  auto tol = a > r ? a : r;
  f128 const top = std::numeric_limits<double>::max();
  if (d > top && tol > top) {
    return { false, false };
  }
  // all that is computed is exact
  volatile double dd = x - v;
  volatile double rr = rel * v;
  bool exact = mag(dd) == d && mag(rr) == r;
  auto slack = (d + tol) * static_cast<f128>(0x1p-51) + static_cast<f128>(4e-324);
  bool far = mag(d - tol) > slack;
  return { exact || far, d <= tol };
}

template<class X>
static void
judge(mc::Ctx& c, bwsl::Approx const& a, X const& x, double v, double abs, double rel)
{
  auto const xd = static_cast<double>(x);
  auto w = want(xd, v, abs, rel);
  bool eq = x == a;
  auto text = [&](char const* op, bool got) {
    std::ostringstream os;
    os.precision(17);
    os << "x " << op << " v is " << got << " for x = " << xd << ", v = " << v << ", abs = " << abs << ", rel = " << rel;
    return os.str();
  };
  if (w.decided) {
    MC_CHECK(c, eq == w.equal, text("==", eq));
  }
  // the others follow from equality and the order of the numbers
  bool lt = xd < v;
  bool gt = xd > v;
  MC_CHECK(c, (x != a) == !eq, text("!=", x != a));
  MC_CHECK(c, (x <= a) == (lt || eq), text("<=", x <= a));
  MC_CHECK(c, (x >= a) == (gt || eq), text(">=", x >= a));
  MC_CHECK(c, (x < a) == (lt && !eq), text("<", x < a));
  MC_CHECK(c, (x > a) == (gt && !eq), text(">", x > a));
  MC_CHECK(c, (a == x) == eq, text("== (exchanged)", a == x));
  MC_CHECK(c, (a != x) == !eq, text("!= (exchanged)", a != x));
  MC_CHECK(c, (a <= x) == (gt || eq), text(">= (exchanged)", a <= x));
  MC_CHECK(c, (a >= x) == (lt || eq), text("<= (exchanged)", a >= x));
  MC_CHECK(c, (a < x) == (gt && !eq), text("> (exchanged)", a < x));
  MC_CHECK(c, (a > x) == (lt && !eq), text("< (exchanged)", a > x));
  MC_CHECK(c, (x == a) == eq, text("== (repeated)", x == a));
  // exactly one of smaller, equal and larger
  MC_CHECK(c, (x < a) + (x > a) + (x == a) == 1, text("trichotomy", eq));
  c.ops += 12;
}

static double const eps = std::numeric_limits<double>::epsilon();
static double const mx = std::numeric_limits<double>::max();
static std::vector<double> const centres{ 0.0, -0.0, 1, -1, 0.1, -0.1, 3, -64, 1e10, 1e-10, -1e-10, 1e300, -1e300, 5e-324, 2.2250738585072014e-308, mx, -mx, 1.0 / 3, 123456.789, 0.5 };
static std::vector<double> const tolerances{ 0.0, 0.5, -0.5, 0.25, 1e-12, -1e-12, 1e-3, 1, 2, -2, 1e10, 1e-300, 5e-324, 1e300, 100 * eps, eps };

/// Values at and around everything that matters
static std::vector<double>
values(double v, double abs, double rel)
{
  std::vector<double> xs{ 0, v, -v, std::nextafter(v, INFINITY), std::nextafter(v, -INFINITY), 1, -1, 1e-320, mx, -mx, v + 1, v - 1, v / 2, v * 2, 1e10, -0.1 };
  for (auto t : { std::fabs(abs), std::fabs(rel * v), std::fabs(rel), 100 * eps * std::fabs(v), std::fabs(abs) + std::fabs(rel * v) }) {
    for (auto f : { 1.0, 0.5, 2.0, 0.99, 1.01, 1 - 1e-10, 1 + 1e-10 }) {
      for (auto x : { v + t * f, v - t * f }) {
        xs.push_back(x);
        if (f == 1) {
          xs.push_back(std::nextafter(x, INFINITY));
          xs.push_back(std::nextafter(x, -INFINITY));
        }
      }
    }
  }
  xs.erase(std::remove_if(xs.begin(), xs.end(), [](double x) { return !std::isfinite(x); }), xs.end());
  std::sort(xs.begin(), xs.end());
  xs.erase(std::unique(xs.begin(), xs.end()), xs.end());
  return xs;
}

static void
judge_all(mc::Ctx& c, bwsl::Approx const& a, double v, double abs, double rel)
{
  for (auto x : values(v, abs, rel)) {
    c.note("x = ", x);
    judge(c, a, x, v, abs, rel);
  }
  judge(c, a, 1, v, abs, rel);
  judge(c, a, -3L, v, abs, rel);
  judge(c, a, 0.1F, v, abs, rel);
  judge(c, a, 0U, v, abs, rel);
}

MC_FAMILY(tolerance, "all centres, absolute and relative tolerances over alphabets, with values at, between and around all boundaries, all operators on both sides", 3)
{
  auto v = c.pick(centres);
  auto abs = 0.0;
  auto rel = 100 * eps;
  bwsl::Approx a(v);
  auto na = c.choose(static_cast<int>(tolerances.size()) + 1);
  auto nr = c.choose(static_cast<int>(tolerances.size()) + 1);
  if (na > 0) {
    abs = tolerances[static_cast<size_t>(na - 1)];
    auto& r = a.SetAbs(abs);
    MC_CHECK(c, &r == &a, "SetAbs does not return the value itself");
  }
  if (nr > 0) {
    rel = tolerances[static_cast<size_t>(nr - 1)];
    auto& r = a.SetRel(rel);
    MC_CHECK(c, &r == &a, "SetRel does not return the value itself");
  }
  c.note("v = ", v, ", abs = ", abs, ", rel = ", rel);
  judge_all(c, a, v, abs, rel);
  c.state(mc::H().add(v).add(std::fabs(abs)).add(std::fabs(rel)));
}

MC_FAMILY(setters, "all histories of setting the tolerances, copying and comparing up to a depth", 3)
{
  static std::vector<double> const vs{ 0, 2, -8, 0.1 };
  static std::vector<double> const ts{ 0, 0.25, -0.25, -1, 1e-3 };
  auto v = c.pick(vs);
  auto abs = 0.0;
  auto rel = 100 * eps;
  auto a = std::make_unique<bwsl::Approx>(v);
  auto depth = mc::bound(4, 3, 5, 4);
  for (int i = 0; i < depth; ++i) {
    switch (c.choose(5)) {
      case 0:
        c.assume(false); // shorter histories are prefixes
        break;
      case 1:
        abs = c.pick(ts);
        a->SetAbs(abs);
        c.op("SetAbs ", abs);
        break;
      case 2:
        rel = c.pick(ts);
        a->SetRel(rel);
        c.op("SetRel ", rel);
        break;
      case 3: {
        auto x = c.pick(vs);
        a->SetAbs(x).SetRel(-x).SetAbs(x);
        abs = x;
        rel = -x;
        c.op("chained ", x);
        break;
      }
      default: {
        auto b = c.flip() ? std::make_unique<bwsl::Approx>(*a) : std::make_unique<bwsl::Approx>(std::move(*a));
        auto old = std::move(a);
        a = std::move(b);
        old->SetAbs(1e9).SetRel(1e9);
        c.op("copied, and the original changed");
        break;
      }
    }
    judge_all(c, *a, v, abs, rel);
    c.state(mc::H().add(v).add(std::fabs(abs)).add(std::fabs(rel)).add(i));
  }
}

/// Temporary objects, as in expressions
MC_FAMILY(expressions, "temporaries built in an expression, from any arithmetic type", 2)
{
  auto v = c.pick({ 0, 1, -4, 100 });
  auto t = c.pick({ 0.0, 0.5, -0.25, 2.0 });
  for (int k = -64; k <= 64; ++k) {
    double x = v + k / 16.0;
    bool near = std::fabs(x - v) <= std::fabs(t);
    bool nearr = std::fabs(x - v) <= std::fabs(t * v);
    MC_CHECK(c, (x == bwsl::Approx(v).SetAbs(t).SetRel(0)) == near, x, " within ", t, " of ", v);
    MC_CHECK(c, (bwsl::Approx(v).SetRel(0).SetAbs(t) == x) == near, x, " within ", t, " of ", v);
    MC_CHECK(c, (x == bwsl::Approx(static_cast<float>(v)).SetRel(t)) == (nearr || std::fabs(x - v) == 0), x, " within ", t, " times ", v);
    MC_CHECK(c, (x == bwsl::Approx(static_cast<long>(v)).SetRel(t).SetAbs(t)) == (near || nearr), x, " within ", t, " of or times ", v);
    c.ops += 4;
  }
  c.state(mc::H().add(v).add(t));
}

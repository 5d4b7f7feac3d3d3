#include "accs.hpp"
#include <bwsl/MonteCarloUtils.hpp>
#include <memory>
using namespace accs;
using bwsl::montecarlo::MoveResult;
using bwsl::montecarlo::MoveStats;
using bwsl::montecarlo::MoveStatus;
using bwsl::montecarlo::exception::MoveInvalidSequence;

struct Model
{
  std::string name = "Unknown";
  bool pending = false;
  unsigned long proposed = 0, accepted = 0, rejected = 0, impossible = 0;
  long double prob = 0;
  unsigned long reported = 0;
  void resolve(unsigned long& what, double p)
  {
    ++what;
    ++reported;
    prob += p;
    pending = false;
  }
  void hash(mc::H& h) const
  {
    h.add(pending).add(proposed).add(accepted).add(rejected).add(impossible).add(static_cast<double>(prob)).add(reported);
  }
};

static bool
close(double got, long double want)
{
  return std::fabs(static_cast<long double>(got) - want) <= 8 * static_cast<long double>(u) * std::fabs(want);
}

static void
check(mc::Ctx& c, MoveStats const& s, Model const& m)
{
  MC_CHECK(c, s.GetName() == m.name, "name '", s.GetName(), "' expected '", m.name, "'");
  auto ratio = [&](unsigned long n) { return m.proposed == 0 ? 0.0L : static_cast<long double>(n) / static_cast<long double>(m.proposed); };
  MC_CHECK(c, close(s.GetAcceptedRatio(), ratio(m.accepted)), "accepted ratio ", s.GetAcceptedRatio(), " expected ", m.accepted, "/", m.proposed);
  MC_CHECK(c, close(s.GetRejectedRatio(), ratio(m.rejected)), "rejected ratio ", s.GetRejectedRatio(), " expected ", m.rejected, "/", m.proposed);
  MC_CHECK(c, close(s.GetImpossibleRatio(), ratio(m.impossible)), "impossible ratio ", s.GetImpossibleRatio(), " expected ", m.impossible, "/", m.proposed);
  if (m.reported > 0) {
    auto want = m.prob / static_cast<long double>(m.reported);
    MC_CHECK(c, close(s.GetAverageProbability(), want), "average probability ", s.GetAverageProbability(), " expected ", want, " of ", m.reported);
  }
}

/// the call must be refused exactly if told so, and then change nothing
template<class F>
static bool
call(mc::Ctx& c, MoveStats& s, Model const& m, bool refused, char const* what, F f)
{
  auto before = save(s);
  bool thrown = false;
  try {
    f();
  } catch (MoveInvalidSequence const& e) {
    thrown = true;
    MC_CHECK(c, std::string(e.what()).find(m.name) != std::string::npos, "'", e.what(), "' does not name the move '", m.name, "'");
  } catch (std::exception const& e) {
    mc::fail(what, " throws another exception: ", e.what());
  }
  c.op(what, thrown ? " refused" : "");
  MC_CHECK(c, thrown == refused, what, m.pending ? " with" : " without", " a pending proposal");
  if (thrown) {
    MC_CHECK(c, save(s) == before, what, " was refused but changed the statistics");
  }
  return !thrown;
}

constexpr int kOps = 12;
static void
step(mc::Ctx& c, MoveStats& s, Model& m, int op)
{
  switch (op) {
    case 0:
      if (call(c, s, m, m.pending, "Propose", [&] { s.Propose(); })) {
        m.pending = true;
        ++m.proposed;
      }
      return;
    case 1:
    case 2: {
      double p = op == 1 ? 0.25 : 1.0;
      if (call(c, s, m, !m.pending, "Accept", [&] { s.Accept(p); })) {
        m.resolve(m.accepted, p);
      }
      return;
    }
    case 3:
    case 4: {
      double p = op == 3 ? 0.0 : 0.1;
      if (call(c, s, m, !m.pending, "Reject", [&] { s.Reject(p); })) {
        m.resolve(m.rejected, p);
      }
      return;
    }
    case 5:
      if (call(c, s, m, !m.pending, "Impossible", [&] { s.Impossible(); })) {
        m.resolve(m.impossible, 0);
      }
      return;
    case 6:
    case 7:
      if (call(c, s, m, m.pending, "Add accepted", [&] { s.Add(MoveResult::Accept(op == 6 ? 0.3 : 0.0)); })) {
        ++m.proposed;
        m.resolve(m.accepted, op == 6 ? 0.3 : 0.0);
      }
      return;
    case 8:
      if (call(c, s, m, m.pending, "Add rejected", [&] { s.Add(MoveResult::Reject(0.6)); })) {
        ++m.proposed;
        m.resolve(m.rejected, 0.6);
      }
      return;
    case 9:
      if (call(c, s, m, m.pending, "Add impossible", [&] { s.Add(MoveResult::Impossible()); })) {
        ++m.proposed;
        m.resolve(m.impossible, 0);
      }
      return;
    case 10:
      if (call(c, s, m, m.pending, "Add impossible with a probability", [&] { s.Add(MoveResult(MoveStatus::Impossible, 0.7)); })) {
        ++m.proposed;
        m.resolve(m.impossible, 0);
      }
      return;
    default: {
      c.op("Reset");
      s.Reset();
      auto name = m.name;
      m = Model();
      m.name = name;
      return;
    }
  }
}

MC_FAMILY(protocol, "all call orders of every operation, refused ones included, all answers after every call", 3)
{
  MoveStats s;
  Model m;
  check(c, s, m);
  int depth = mc::bound(6, 5, 7, 6);
  for (int i = 0; i < depth; ++i) {
    step(c, s, m, c.choose(kOps));
    check(c, s, m);
    mc::H h;
    m.hash(h);
    c.state(h);
  }
}

static std::vector<std::string> const&
names()
{
  static std::vector<std::string> const n{ "Unknown", "flip", "", "a {} b", "{0:d}", "%s%n", std::string(300, 'x'), "two\nlines", "worm \xc3\xa9" };
  return n;
}

MC_FAMILY(names, "all short call orders of moves of any name; the exception outlives the move and the printed text tells the name and changes nothing", 3)
{
  Model m;
  m.name = c.pick(names());
  std::unique_ptr<MoveInvalidSequence> kept;
  {
    MoveStats s(m.name);
    check(c, s, m);
    int depth = mc::bound(3, 3, 4, 4);
    for (int i = 0; i < depth; ++i) {
      step(c, s, m, c.choose(kOps));
      check(c, s, m);
      auto before = save(s);
      std::ostringstream os;
      os << s;
      MC_CHECK(c, os.str().find(m.name) != std::string::npos, "printed '", os.str(), "' of the move '", m.name, "'");
      MC_CHECK(c, save(s) == before, "printing changed the statistics");
      mc::H h;
      m.hash(h);
      c.state(h.add(m.name));
    }
    try {
      if (m.pending) {
        s.Propose();
      } else {
        s.Accept(1.0);
      }
      mc::fail("an invalid sequence was accepted");
    } catch (MoveInvalidSequence const& e) {
      kept = std::make_unique<MoveInvalidSequence>(e);
    }
  }
  MC_CHECK(c, std::string(kept->what()).find(m.name) != std::string::npos, "the kept exception says '", kept->what(), "'");
}

MC_FAMILY(results, "results carry the status and the probability they were built with, also after copies", 2)
{
  double p = c.pick({ 0.0, 0.3, 1.0, 5e-324, 0.9999999999999999, 2.5 });
  int how = c.choose(7);
  MoveResult r;
  MC_CHECK(c, r.IsImpossible() && r.GetStatus() == MoveStatus::Impossible && r.Probability() == 0, "default result");
  MoveStatus st = MoveStatus::Impossible;
  switch (how) {
    case 0: r = MoveResult::Accept(p); st = MoveStatus::Accepted; break;
    case 1: r = MoveResult::Reject(p); st = MoveStatus::Rejected; break;
    case 2: r = MoveResult::Impossible(); p = 0; break;
    case 3: r = MoveResult(MoveStatus::Accepted, p); st = MoveStatus::Accepted; break;
    case 4: r = MoveResult(MoveStatus::Rejected, p); st = MoveStatus::Rejected; break;
    case 5: r = MoveResult(MoveStatus::Impossible, p); break;
    default: p = 0; break;
  }
  if (c.flip()) {
    MoveResult q(r);
    MoveResult z(std::move(q));
    r = z;
    MoveResult y;
    y = std::move(z);
    MC_CHECK(c, y.GetStatus() == st && y.Probability() == p, "moved result");
  }
  c.op("result ", how, " ", p);
  MC_CHECK(c, r.GetStatus() == st, "status");
  MC_CHECK(c, r.IsAccepted() == (st == MoveStatus::Accepted), "accepted");
  MC_CHECK(c, r.IsRejected() == (st == MoveStatus::Rejected), "rejected");
  MC_CHECK(c, r.IsImpossible() == (st == MoveStatus::Impossible), "impossible");
  MC_CHECK(c, r.Probability() == p, "probability ", r.Probability(), " expected ", p);
  MoveStats s;
  Model m;
  s.Add(r);
  m.proposed = 1;
  m.resolve(st == MoveStatus::Accepted ? m.accepted : st == MoveStatus::Rejected ? m.rejected : m.impossible, st == MoveStatus::Impossible ? 0 : p);
  check(c, s, m);
  mc::H h;
  m.hash(h);
  c.state(h.add(how));
}

MC_FAMILY(long_histories, "periodic histories of up to a million calls", 4)
{
  MoveStats s("long");
  Model m;
  m.name = "long";
  std::vector<int> p;
  for (int i = 0; i < 4; ++i) {
    p.push_back(c.choose(11));
  }
  int rounds = c.pick({ 50, mc::bound(400, 150, 20000, 2000) });
  c.op("pattern ", p[0], " ", p[1], " ", p[2], " ", p[3], " ", rounds, " times");
  c.tracing = false;
  for (int r = 0; r < rounds; ++r) {
    for (auto o : p) {
      auto refused = o == 0 || o > 5 ? m.pending : !m.pending;
      bool thrown = false;
      if (refused && r > 20) {
        continue;
      }
      static double const probs[] = { 0, 0.25, 1.0, 0.0, 0.1, 0, 0.3, 0.0, 0.6, 0, 0 };
      try {
        switch (o) {
          case 0: s.Propose(); break;
          case 1: case 2: s.Accept(probs[o]); break;
          case 3: case 4: s.Reject(probs[o]); break;
          case 5: s.Impossible(); break;
          case 6: case 7: s.Add(MoveResult::Accept(probs[o])); break;
          case 8: s.Add(MoveResult::Reject(probs[o])); break;
          case 9: s.Add(MoveResult::Impossible()); break;
          default: s.Add(MoveResult(MoveStatus::Impossible, 0.7)); break;
        }
      } catch (MoveInvalidSequence const&) {
        thrown = true;
      }
      MC_CHECK(c, thrown == refused, "call ", o, " in round ", r);
      if (thrown) {
        continue;
      }
      if (o == 0 || o > 5) {
        ++m.proposed;
        m.pending = true;
      }
      if (o > 0) {
        m.resolve(o == 1 || o == 2 || o == 6 || o == 7 ? m.accepted : o == 3 || o == 4 || o == 8 ? m.rejected : m.impossible, probs[o]);
      }
      ++c.ops;
    }
  }
  check(c, s, m);
  mc::H h;
  m.hash(h);
  c.state(h);
}

MC_FAMILY(large_counts, "ratios of counts beyond 2^32, restored from an archive, continued by a short history", 2)
{
  static unsigned long const sizes[] = { 1000, 4294967295UL, 4294967296UL, 1UL << 40, 1UL << 52 };
  MoveStats s;
  Model m;
  for (int i = 0; i < 997; ++i) {
    s.Add(i < 500 ? MoveResult::Accept(0.5) : i < 800 ? MoveResult::Reject(0.5) : MoveResult::Impossible());
  }
  s.Propose();
  auto a = sizes[c.choose(5)] + 11;
  auto r = sizes[c.choose(5)] + 12;
  auto i = sizes[c.choose(5)] + 13;
  m.accepted = a;
  m.rejected = r;
  m.impossible = i;
  m.reported = a + r + i;
  m.proposed = m.reported + 1;
  m.pending = true;
  m.prob = 400;
  bool ok = set_token(s, "998", std::to_string(m.proposed), "proposals") && set_token(s, "997", std::to_string(m.reported), "probabilities") && set_token(s, "500", std::to_string(a), "accepted") && set_token(s, "300", std::to_string(r), "rejected") && set_token(s, "197", std::to_string(i), "impossible");
  if (!ok) {
    c.op("no such state");
    c.state(mc::H().add(0));
    return;
  }
  c.op("counts ", a, " ", r, " ", i);
  check(c, s, m);
  for (int k = 0; k < 2; ++k) {
    auto o = c.choose(kOps - 1);
    step(c, s, m, o);
    check(c, s, m);
    mc::H h;
    m.hash(h);
    c.state(h);
  }
}

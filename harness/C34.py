"""C34: every combination of public headers, split over translation units in all
ways, goes through the real compiler and linker, and the programs are run.

The space that is enumerated completely:
  alone     every header x checks off/on: a translation unit that includes only
            it and calls what it declares, with and without NDEBUG
  pairs     every ordered pair of headers (also a header twice) in one unit,
            calling what both declare
  units     every unordered pair of headers (also a header with itself) in two
            units of one program x checks off/on: link and run
  language  every header x compilers (g++, clang++) x language standards from C++17
            on x checks off/on: a unit that includes only it and uses it
  program   all headers, each in two units, in one program x checks off/on;
            all in one unit, in the order of the names and reversed
A header without a snippet (one that is new) is only included.
"""
import concurrent.futures
import itertools
import os
import re
import shutil
import time

STD = ("#include <algorithm>\n#include <array>\n#include <list>\n#include <random>\n"
       "#include <sstream>\n#include <string>\n#include <vector>\n#include <cstdlib>\n#include <utility>\n")
ARCHIVE = ("#include <boost/archive/text_iarchive.hpp>\n"
           "#include <boost/archive/text_oarchive.hpp>\n")
SAVE = """
  { std::stringstream ss; { boost::archive::text_oarchive oa(ss); auto const& cx = x; oa << cx; }
    decltype(x) y; boost::archive::text_iarchive ia(ss); ia >> y; }
"""

ACC = """
  bwsl::accumulators::%s x;
  x.Add(1.0); x.Add(2.0); x.Add(4.0);
  auto const& k = x;
  ok = ok && k.Count() == 3 && k.Mean() > 2 && k.Sum() == 7;
  %s
""" + SAVE + """
  bwsl::accumulators::%s z(x); z = x; z = std::move(x); z.Reset();
  ok = ok && z.Count() == 0;
"""
GRID = """
  using G = bwsl::HyperCubicGrid;
  G d; G g({ 3, 2 }, G::boundaries_t::Closed); G o({ 3, 2 }, G::boundaries_t::Open);
  auto const& k = g;
  G::coords_t c{ 4, -1 }; k.EnforceBoundaries(c);
  ok = ok && k.GetDim() == 2 && k.GetNumSites() == 6 && k.HasClosedBoundaries() && !k.HasOpenBoundaries()
       && k.GetSize().size() == 2 && k.GetIndex(k.GetCoordinates(5)) == 5 && k.IsOnGrid(c) && k.IndexIsValid(5)
       && k.GetUnMappedSite(k.GetMappedSite(1, 4), 1) < 6 && k.GetIndividualIndices(k.GetPairIndex(1, 2)).first == 1
       && k.GetJump(0, 5).size() == 2 && k.GetGrid().GetNumSites() == 6 && o.GetBoundaries() == G::boundaries_t::Open;
  d = g;
"""
MOVES = """
  using namespace bwsl::montecarlo;
  MoveResult a; MoveResult b(MoveStatus::Accepted, 0.5); a = b;
  ok = ok && a.IsAccepted() && !a.IsRejected() && !a.IsImpossible() && a.Probability() == 0.5 && a.GetStatus() == MoveStatus::Accepted;
  ok = ok && MoveResult::Accept(1).IsAccepted() && MoveResult::Reject(0).IsRejected() && MoveResult::Impossible().IsImpossible();
"""
STATS = """
  using bwsl::montecarlo::MoveStats;
  MoveStats x; MoveStats n("name");
  x.Propose(); x.Accept(0.5); x.Propose(); x.Reject(0.25); x.Propose(); x.Impossible();
  x.Add(bwsl::montecarlo::MoveResult::Accept(1));
  try { x.Accept(1); ok = false; } catch (bwsl::montecarlo::exception::MoveInvalidSequence const& e) { ok = ok && e.what() != nullptr; }
  bwsl::montecarlo::exception::InvalidProbability const ip(2); ok = ok && ip.what() != nullptr;
  auto const& k = x;
  ok = ok && k.GetAcceptedRatio() == 0.5 && k.GetRejectedRatio() == 0.25 && k.GetImpossibleRatio() == 0.25 && k.GetAverageProbability() > 0 && n.GetName() == "name";
  std::ostringstream os; os << k; ok = ok && !os.str().empty();
""" + SAVE + "  x.Reset();\n"

# header -> (other includes after it, declarations, body that sets `ok`)
USE = {
    "bwsl/accumulators/KahanAccumulator.hpp": (ARCHIVE, "", ACC % ("KahanAccumulator", "", "KahanAccumulator")),
    "bwsl/accumulators/NeumaierAccumulator.hpp": (ARCHIVE, "", ACC % ("NeumaierAccumulator", "", "NeumaierAccumulator")),
    "bwsl/accumulators/KnuthWelfordAccumulator.hpp": (ARCHIVE, "", """
  bwsl::accumulators::KnuthWelfordAccumulator x;
  x.Add(1.0); x.Add(2.0); x.Add(6.0);
  auto const& k = x;
  ok = ok && k.Count() == 3 && k.Mean() > 2.5 && k.Sum() > 8.5 && k.Variance(true) > 0 && k.StandardDeviation(false) > 0 && k.ScaledVariance() > 0;
""" + SAVE + "  x.Reset();\n"),
    "bwsl/accumulators/WestAccumulator.hpp": (ARCHIVE, "", """
  bwsl::accumulators::WestAccumulator x;
  x.Add(1.0, 1.0); x.Add(2.0, 1.0); x.Add(6.0, 2.0);
  auto const& k = x;
  ok = ok && k.Count() == 3 && k.Mean() > 2.5 && k.Sum() > 8.5 && k.PopulationVariance() > 0 && k.SampleFrequencyVariance() > 0 && k.SampleReliabilityVariance() > 0;
""" + SAVE + "  x.Reset();\n"),
    "bwsl/accumulators/NaiveIntegerAccumulator.hpp": (ARCHIVE, "", """
  bwsl::NaiveInteger x;
  x.Add(1); x.Add(2); x.Add(6);
  auto const& k = x;
  ok = ok && k.Count() == 3 && k.Mean() == 3 && k.Sum() == 9 && k.Variance(true) > 0 && k.StandardDeviation(false) > 0 && k.ScaledVariance() > 0;
""" + SAVE + "  x.Reset();\n"),
    "bwsl/accumulators/AccumulatorsExceptions.hpp": ("", "", """
  bwsl::exception::AccumulatorOverflow e; std::exception const& b = e; ok = ok && b.what() != nullptr;
"""),
    "bwsl/Accumulators.hpp": (ARCHIVE, "", """
  bwsl::accumulators::KahanAccumulator a; bwsl::accumulators::NeumaierAccumulator b; bwsl::accumulators::KnuthWelfordAccumulator c;
  bwsl::accumulators::WestAccumulator w; w.Add(1, 1);
  std::vector<double> const v{ 1, 2, 3 }; std::list<int> const l{ 1, 2, 3 };
  ok = ok && bwsl::apply_accumulator(v.begin(), v.end(), a).Sum() == 6 && bwsl::apply_accumulator(l.begin(), l.end(), b).Sum() == 6
       && bwsl::apply_accumulator(v.begin(), v.end(), c).Mean() == 2;
"""),
    "bwsl/HistAccumulator.hpp": (ARCHIVE, "", """
  bwsl::HistAccumulator x; bwsl::HistAccumulator h(3);
  x.ForceAdd(2); x.ForceAdd(0, 2.0); x.Add(1); x.Add(1, 3); x.Resize(4);
  auto const& k = x;
  ok = ok && k.GetCount() == 4 && k.GetCount(1) == 2 && k.GetNbins() == 4 && k.GetResult(0) == 0.5 && k.GetResults().size() == 4 && k.GetResults(0)[0] == 1;
""" + SAVE + "  x.Reset(); h = x;\n"),
    "bwsl/ObservableGroup.hpp": (ARCHIVE, "", """
  auto const file = std::string(std::getenv("C34_FILE"));
  bwsl::ObservableGroup<std::string> x(file); bwsl::ObservableGroup<std::string> g(file, { "a", "b" });
  bwsl::ObservableGroup<int> gi(file, { 1, 2 });
  g.AddObservable("c").AddObservable("d"); g.Measure("a", 1.0); gi.Measure(2, 1.0); gi.AddObservable(3);
  auto const& k = g; k.PrintHeaders(); g.PrintAndReset(5); gi.PrintHeaders(); gi.PrintAndReset(5);
  x = g;
""" + SAVE.replace("decltype(x) y;", "decltype(x) y(file);")),
    "bwsl/MonteCarloUtils.hpp": (ARCHIVE, "", "{" + MOVES + "}" + "{" + STATS + "}"),
    "bwsl/mcutils/MoveResult.hpp": ("", "", MOVES),
    "bwsl/mcutils/MoveStatus.hpp": ("", "", """
  auto s = bwsl::montecarlo::MoveStatus::Rejected;
  ok = ok && s != bwsl::montecarlo::MoveStatus::Accepted && s != bwsl::montecarlo::MoveStatus::Impossible;
"""),
    "bwsl/mcutils/MoveStats.hpp": (ARCHIVE, "", STATS),
    "bwsl/HyperCubicGrid.hpp": ("", "", GRID),
    "bwsl/Bravais.hpp": ("", "", """
  bwsl::Bravais b(1, 2, { 1.0 }, { 6.283185307179586 }, { 1 });
  auto const& k = b;
  ok = ok && k.GetDim() == 1 && k.GetGamma() == 2 && k.GetRealSpace({ 2 })[0] == 2 && k.GetInverseVector({ 2.0 }).size() == 1
       && k.GetReciprocalSpace({ 1 }).size() == 1 && k.GetVector({ 1 }, { 3 }).size() == 1 && k.GetDistance({ 1 }, { 3 }) == 2
       && k.GetDistanceVector({ 1 }, { 3 }).first == 2 && k.GetNeighbor({ 4 }, 0).size() == 1;
"""),
    "bwsl/Lattice.hpp": ("", "", "{" + GRID + "}" + """
  using L = bwsl::Lattice;
  L d; L l(bwsl::SquareLattice, { 3, 2 }); L o(bwsl::TriangularLattice, { 2, 2 }, L::boundaries_t::Open);
  L t(bwsl::ChainLattice, { 4 }); 
  auto const& k = l;
  L::coords_t c{ 4, -1 }; k.EnforceBoundaries(c);
  std::vector<int> occ(6, 1); std::vector<double> sk(6, 0.0); k.AccumulateSk(occ, sk); k.AccumulateSk(occ, sk, 2.0);
  ok = ok && k.GetNeighbors(0).size() == 4 && k.GetDistance(0, 1) == 1 && k.GetVector(0, 1).size() == 2 && k.GetWinding({ 3, 2 }).size() == 2
       && k.GetPosition(1).size() == 2 && k.AreNeighbors(0, 1) && k.GetCoordination(0) == 4 && k.GetCoordination() == 4
       && k.GetMomentum(1).size() == 2 && k.ComputeSk(occ).size() == 6 && k.ComputeSk(occ, 0.5).size() == 6 && c.size() == 2;
  auto const file = std::string(std::getenv("C34_FILE"));
  k.SaveDistances(file); k.SavePositions(file); k.SaveMomenta(file); k.SavePairs(file);
  d = l;
"""),
    "bwsl/LinSpace.hpp": ("", "", """
  bwsl::LinSpace<double> s(0, 1, 5); bwsl::LinSpace<int> n(0, 10, 5); bwsl::LinSpace<float> f(0, 1, 2);
  ok = ok && *s == 0; ++s; s++; s(); ok = ok && s.Collect(3).size() == 3 && s == s && !(s != s) && s.begin() != s.end();
  for (auto x : s) { ok = ok && x >= 0; }
  for (auto x : n) { ok = ok && x >= 0; }
  for (auto x : f) { ok = ok && x >= 0; }
"""),
    "bwsl/LogSpace.hpp": ("", "", """
  bwsl::LogSpace<double> s(1.0, 8.0, 5); bwsl::LogSpace<double> b(0L, 3L, 5, 2.0); bwsl::LogSpace<float> f(1.0F, 2.0F, 2);
  ok = ok && *s == 1; ++s; s++; s(); ok = ok && s.Collect(3).size() == 3 && s == s && !(s != s) && s.begin() != s.end();
  for (auto x : b) { ok = ok && x >= 0; }
  for (auto x : f) { ok = ok && x >= 0; }
"""),
    "bwsl/RationalNum.hpp": ("", "", """
  using R = bwsl::RationalNum<long>; R a(1, 2); R b(2, 6); R z; bwsl::RationalNum<int> i(3, 4);
  z = a + b; z = a - b; z = a * b; z = a / b; z = a + 1L; z = a - 1L; z = a * 2L; z = a / 2L; z = 1L + a; z = 1L - a; z = 2L * a; z = 2L / a;
  ok = ok && b < a && a > b && a <= a && a >= b && a == a && a != b && a < 1L && 0L < a && a != 1L && a == R(2, 4) && R(4, 2) == 2L && a <= 1L && a >= 0L && a > 0L && 1L > a;
  ok = ok && static_cast<double>(a) == 0.5 && static_cast<long>(R(5, 1)) == 5 && R(4, 2).IsInt() && b.GetNum() == 1 && b.GetDen() == 3;
  z.Simplify(); std::stringstream ss; ss << a; ss >> z; ok = ok && z == a && !bwsl::ToString(a).empty(); i = i + i;
"""),
    "bwsl/Approx.hpp": ("", "", """
  bwsl::Approx a(1.0); auto const& k = a.SetAbs(0.25).SetRel(0.5); bwsl::Approx b(k);
  ok = ok && k == 1.25 && 1.25 == k && k != 3.0 && 3.0 != k && k <= 1.25 && 1.25 <= k && k >= 1.25 && 1.25 >= k && k < 3.0 && 0.0 < k && k > 0.0 && 3.0 > k && b == 1;
"""),
    "bwsl/Pairs.hpp": ("", "", """
  auto i = bwsl::pairs::GetPairIndex(1, 2, 3);
  ok = ok && i == bwsl::pairs::GetPairIndex(std::make_pair(std::size_t{ 1 }, std::size_t{ 2 }), 3) && bwsl::pairs::GetPair(i, 3).second == 2 && bwsl::pairs::GetNumPairs(3) == 9;
"""),
    "bwsl/FileUtils.hpp": ("", "", """
  auto const file = std::string(std::getenv("C34_FILE"));
  ok = ok && !bwsl::compare_files(file + ".none", file + ".none");
"""),
    "bwsl/EnumString.hpp": ("", "BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Colour, (red)(green)(blue))", """
  Colour c = red; FromString(c, "blue"); ok = ok && c == blue && ToString(green) == "green";
  try { FromString(c, "pink"); ok = false; } catch (EnumStringConversionFailed_Colour const& e) { ok = ok && e.what() != nullptr; }
"""),
    "bwsl/Exceptions.hpp": ("", "", """
  bwsl::exception::BadParsing e; std::exception const& b = e; ok = ok && b.what() != nullptr;
"""),
    "bwsl/RelationalUtils.hpp": ("", """
struct Val { int i; };
inline bool operator<(Val const& a, Val const& b) { return a.i < b.i; }
OVERLOADRELATIONAL(Val, Val)
struct Two { int i; };
inline bool operator<(Two const& a, Two const& b) { return a.i < b.i; }
inline bool operator==(Two const& a, Two const& b) { return a.i == b.i; }
OVERLOADRELATIONALNOEQ(Two, Two)
template<class T> struct Gen { T i; };
template<class T> inline bool operator<(Gen<T> const& a, Gen<T> const& b) { return a.i < b.i; }
TEMPLATEOVERLOADRELATIONAL(Gen<T>, Gen<T>, T)
""", """
  Val const a{ 1 }, b{ 2 }; ok = ok && a != b && a == a && a <= b && b > a && b >= a;
  Two const c{ 1 }, d{ 2 }; ok = ok && c != d && c <= d && d > c && d >= c;
  Gen<int> const e{ 1 }, f{ 2 }; ok = ok && e != f && e == e && e <= f && f > e && f >= e;
"""),
    "bwsl/RNGUtils.hpp": (ARCHIVE, "", """
  std::mt19937_64 x(3); x(); std::mt19937 s(3);
  { std::stringstream ss; { boost::archive::text_oarchive oa(ss); auto const& cx = x; auto const& cs = s; oa << cx << cs; }
    std::mt19937_64 y; std::mt19937 t; boost::archive::text_iarchive ia(ss); ia >> y >> t; ok = ok && x == y && s == t; }
"""),
    "bwsl/MathUtils.hpp": ("", "", """
  using namespace std;
  std::vector<double> v{ 3, 4 }; std::vector<size_t> const sz{ 2, 3 }; std::array<long, 2> const at{ 1, 2 }; std::mt19937_64 rng(1); std::vector<int> n{ 1, 2, 2, 5 };
  bwsl::SizeType st = 0; bwsl::DiffType dt = 0; ok = ok && st == 0 && dt == 0;
  ok = ok && bwsl::square(3) == 9 && bwsl::cube(2.0) == 8 && bwsl::accumulate_product(v) == 12 && bwsl::accumulate_sum(v) == 7
       && bwsl::max(v) == 4 && bwsl::min(v) == 3 && bwsl::sum_squared<std::vector<double>, double>(v) == 25 && bwsl::l2norm(v) == 5 && bwsl::sgn(-2.5) == -1
       && bwsl::absdiff(2U, 3U) == 1 && bwsl::signeddiff<unsigned, int>(2U, 3U) == -1 && bwsl::cbinomial(5L, 2L) == 10 && bwsl::cbinomial(5, 2) == 10
       && bwsl::choose_between(v, rng) < 2 && bwsl::choose_between_psums(v, rng) < 2 && bwsl::choose_with_probability(1.0, rng)
       && bwsl::array_to_index(at, sz) == 5 && bwsl::index_to_array<std::vector<long>>(5, sz)[1] == 2
       && bwsl::upper_bound(n.begin(), n.end(), 2) == n.begin() + 3 && bwsl::upper_bound(v.begin(), v.end(), 3.5) == v.begin() + 1
       && bwsl::get_gcd(12, 18) == 6 && bwsl::heaviside(0.0) == 1 && bwsl::heaviside2(0.0) == 0.5 && bwsl::lerp(1.0, 3.0, 0.5) == 2 && bwsl::lerpi(1, 2, 1.0, 3.0) == 2;
  auto w = bwsl::get_inverted(v); bwsl::sum_into(w, v); bwsl::subtract_into(w, v); bwsl::invert(w); ok = ok && w == v;
"""),
}


def source(headers, symbol, use=True):
    s = "".join("#include <%s>\n" % h for h in headers)
    s += STD
    for h in headers:
        if use and h in USE:
            s += USE[h][0]
    done = []
    for i, h in enumerate(headers):
        if not use or h not in USE or h in done:
            continue
        done.append(h)
        # what the macros of a header define is the same entity in every unit
        shared = "".join(ch if ch.isalnum() else "_" for ch in h)
        s += ("namespace shared_%s {\n%s\n}\nnamespace client_%s_%d {\nusing namespace shared_%s;\n"
              "static bool use() {\n bool ok = true;\n%s\n return ok;\n}\n}\n") % (
            shared, USE[h][1], symbol, i, shared, USE[h][2])
    s += "extern bool %s();\nbool %s() {\n" % (symbol, symbol)
    for i, h in enumerate(headers):
        if h in done and headers.index(h) == i:
            s += "  if (!client_%s_%d::use()) { return false; }\n" % (symbol, i)
    return s + "  return true;\n}\n"


def run(driver, prop, tier, build):
    t0 = time.time()
    inc = os.path.join(driver.REPO, "include")
    headers = sorted(os.path.relpath(os.path.join(d, f), inc)
                     for d, _, fs in os.walk(inc) for f in fs if f.endswith(".hpp"))
    # parts of other headers are not for users to include
    headers = [h for h in headers if h in USE or not re.search("detail|impl|internal|private", h)]
    base = ["g++", "-std=gnu++17", "-O0", "-g0", "-I" + inc, "-DFMT_HEADER_ONLY", "-w",
            "-fno-diagnostics-color"]
    CONFIG = {"plain": [], "checks": ["-DBWSL_ACCUMULATORS_CHECKS"],
              "release": ["-DNDEBUG", "-DBWSL_ACCUMULATORS_CHECKS"]}
    limit = 820 if tier == "quick" else 7000
    families = []
    failures = []
    samples = []

    def sh(cmd, env=None):
        left = limit - (time.time() - t0)
        if left < 5:
            raise driver.CheckError("C34 exceeded its time")
        for attempt in range(2):
            rc, log = driver.sh(cmd, left, env=env)
            if rc == 0:
                break
        return rc, log

    def tool_works():
        p = os.path.join(build, "probe.cpp")
        with open(p, "w") as f:
            f.write("#include <boost/archive/text_oarchive.hpp>\n#include <fmt/ostream.h>\nint main() { return 0; }\n")
        rc, log = driver.sh(base + [p, "-o", p + ".exe", "-lboost_serialization"], 300)
        if rc != 0:
            raise driver.CheckError("the toolchain does not work here:\n" + log[-2000:])

    def fail(what, log):
        tool_works()
        failures.append((what, log))

    def write(name, text):
        p = os.path.join(build, name)
        with open(p, "w") as f:
            f.write(text)
        return p

    def parallel(name, what, jobs, fn):
        jobs = list(jobs)
        with concurrent.futures.ThreadPoolExecutor(driver.JOBS) as ex:
            for f in [ex.submit(fn, *j) for j in jobs]:
                f.result()
        families.append({"name": name, "what": what, "executions": len(jobs), "transitions": len(jobs)})

    # --- alone, in two units each
    objects = {}
    ident = {h: "h%d" % i for i, h in enumerate(headers)}

    def compile_unit(h, cfg, copy):
        sym = "use_%s_%d" % (ident[h], copy)
        src = write("%s-%s.cpp" % (sym, cfg), source([h], sym))
        obj = src[:-4] + ".o"
        rc, log = sh(base + CONFIG[cfg] + ["-c", src, "-o", obj])
        if rc != 0:
            fail("a program that includes only <%s> (%s) and uses it does not compile" % (h, cfg), log)
        objects[h, cfg, copy] = (obj, sym)

    samples.append(source([headers[0]], "use_h0_1")[:600])
    parallel("alone", "every header alone, used by a client, in two units, with checks off and on, with and without assertions",
             [(h, cfg, copy) for h in headers for cfg in CONFIG for copy in ((1, 2) if cfg != "release" else (1,))],
             compile_unit)

    mains = {}

    def link_and_run(name, objs, what, cfg):
        key = name
        m = write(key + "-main.cpp", "".join("extern bool %s();\n" % s for _, s in objs) +
                  "int main() {\n" + "".join("  if (!%s()) { return %d; }\n" % (s, 10 + i) for i, (_, s) in enumerate(objs)) + "  return 0;\n}\n")
        exe = os.path.join(build, key + ".exe")
        rc, log = sh(["g++", "-O0", "-g0", m] + [o for o, _ in objs] + ["-o", exe, "-lboost_serialization"])
        if rc != 0:
            fail("%s (%s): does not link" % (what, cfg), log)
            return
        rc, log = sh([exe], env={"C34_FILE": os.path.join(build, key + ".data")})
        if rc != 0:
            fail("%s (%s): the program ends with status %d" % (what, cfg, rc), log)
        os.unlink(exe)

    if not failures:
        # --- all pairs of units
        def pair(a, b, cfg):
            link_and_run("pair-%s-%s-%s" % (ident[a], ident[b], cfg),
                         [objects[a, cfg, 1], objects[b, cfg, 2]],
                         "a program of two units with <%s> and <%s>" % (a, b), cfg)

        parallel("units", "all pairs of headers in two units of one program, linked and run, with checks off and on",
                 [(a, b, cfg) for a, b in itertools.combinations_with_replacement(headers, 2)
                  for cfg in ("plain", "checks")], pair)

        def everything(cfg):
            link_and_run("all-" + cfg, [objects[h, cfg, k] for h in headers for k in (1, 2)],
                         "a program of all headers in two units each", cfg)

        parallel("program", "all headers in two units each in one program", [("plain",), ("checks",)], everything)

    if not failures:
        def language(h, compiler, std, cfg):
            sym = "l_%s_%s_%s" % (ident[h], compiler.replace("+", "p"), std.replace("+", "p"))
            src = write("%s-%s.cpp" % (sym, cfg), source([h], sym))
            cmd = [compiler if x == "g++" else "-std=" + std if x.startswith("-std=") else x for x in base if x != "-g0" or compiler == "g++"]
            rc, log = sh(cmd + CONFIG[cfg] + ["-fsyntax-only", src])
            if rc != 0:
                fail("a program that includes only <%s> and uses it does not compile with %s as %s (%s)" % (h, compiler, std, cfg), log)
            os.unlink(src)

        probe = write("language.cpp", "#include <string>\n#include <boost/archive/text_oarchive.hpp>\n#include <fmt/ostream.h>\nint main() { return 0; }\n")
        langs = [(c, s) for c in ("g++", "clang++") for s in ("c++17", "c++20", "c++23")
                 if shutil.which(c) and driver.sh([c, "-std=" + s, "-DFMT_HEADER_ONLY", "-fsyntax-only", probe], 300)[0] == 0]
        parallel("language", "every header alone, used by a client, with " + ", ".join("%s as %s" % l for l in langs),
                 [(h, c, s, cfg) for h in headers for c, s in langs for cfg in (("checks",) if tier == "quick" else CONFIG)], language)

    if not failures:
        def one_unit(order, cfg):
            hs = headers if order == "forward" else headers[::-1]
            sym = "all_%s" % order
            src = write("%s-%s.cpp" % (sym, cfg), source(hs, sym))
            rc, log = sh(base + CONFIG[cfg] + ["-c", src, "-o", src[:-4] + ".o"])
            if rc != 0:
                fail("a unit with all headers (%s, %s) does not compile" % (order, cfg), log)

        parallel("together", "all headers in one unit, in order and reversed",
                 [(o, cfg) for o in ("forward", "backward") for cfg in ("plain", "checks")], one_unit)

    if not failures:
        def ordered(a, b, cfg):
            sym = "p_%s_%s" % (ident[a], ident[b])
            src = write("%s-%s.cpp" % (sym, cfg), source([a, b], sym))
            rc, log = sh(base + CONFIG[cfg] + ["-fsyntax-only", src])
            if rc != 0:
                fail("a unit with <%s> and then <%s> (%s) does not compile" % (a, b, cfg), log)
            os.unlink(src)

        cfgs = ["plain"] if tier == "quick" else list(CONFIG)
        parallel("pairs", "all ordered pairs of headers, also a header twice, in one unit that uses both",
                 [(a, b, cfg) for a in headers for b in headers for cfg in cfgs], ordered)

    if not failures and tier != "quick":
        def triple(a, b, c):
            sym = "t_%s_%s_%s" % (ident[a], ident[b], ident[c])
            src = write("%s.cpp" % sym, source([a, b, c], sym, use=False))
            rc, log = sh(base + ["-fsyntax-only", src])
            if rc != 0:
                fail("a unit with <%s>, <%s> and <%s> does not compile" % (a, b, c), log)
            os.unlink(src)

        parallel("triples", "all sets of three headers in one unit",
                 itertools.combinations(headers, 3), triple)

    n = sum(f["executions"] for f in families)
    samples += ["include <%s> then <%s> in one unit" % (headers[0], headers[1]),
                "unit 1: <%s>, unit 2: <%s>" % (headers[2], headers[-1])]
    res = [{"variant": "compiler", "executions": n, "transitions": n, "checks": n, "states": n,
            "states_not_recorded": 0, "wall_s": round(time.time() - t0, 1), "exhaustive": not failures,
            "violated": bool(failures), "headers": headers, "families": families, "samples": samples}]
    if failures:
        what, log = failures[0]
        return res, {"mode": "build", "variant": "build", "property": prop, "tier": tier,
                     "message": what + "\n" + log[:3000],
                     "trace": [w for w, _ in failures[1:20]]}
    return res, None

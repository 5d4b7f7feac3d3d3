#!/usr/bin/env python3
"""Writes DESIGN.md: prose from tools/design.md, per property notes from the table
below, the families from the harnesses, the planted bugs from seeded/ and
tools/seeded_results.txt."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
N = {
 "C01": ("Mixed radix numbers written from the property (last coordinate fastest), exact in 128 bits.", "Numbers of sites that do not fit size_t; coordinates of the wrong dimension (an assert in the code)."),
 "C02": ("Componentwise addition modulo the sizes; on open grids plain displacements, checked only when they land on the grid.", "Displacements that leave an open grid; coordinates of a magnitude whose wrapping would need more than some 10^7 turns (the code wraps by repeated addition)."),
 "C03": ("The representative of b - a in (-L/2, L/2], from the definition; closed walks are enumerated site by site and their jumps added.", "Extents above 2^61, where sums of a few extents overflow a coordinate; totals that are no whole number of turns (GetWinding is only specified for closed walks)."),
 "C04": ("The image of every direction of the cell is wrapped, or dropped if outside, by the reference grid; multisets are compared.", "Cells whose neighbour table does not match gamma (an assert)."),
 "C05": ("Brute force minimum over all images within the radius of the best one found, plus one shell, in long double.", "Which of several equally short images is returned; rounding (1e-12 relative); lengths whose squares are not representable."),
 "C06": ("Dual lattice from the inverse matrix in long double; phases over every period, pairwise inequivalence.", "GetMomentum on open lattices (there are no momenta)."),
 "C07": ("Direct sum in long double over the positions of the reference; translations through the reference grid; quadratic forms are determined by all one and two site occupations, which extends the check to all occupations of these lattices.", "Occupation vectors shorter than the number of sites."),
 "C08": ("Every file is parsed: header, number of rows, indices, and each number with strtod against the query, bit by bit.", "Column names other than their number; unwritable files."),
 "C09": ("Matrix products in long double, exact integers where possible.", "Inverse matrices that do not match; coordinates beyond 2^53."),
 "C10": ("Explicit enumeration; for huge numbers of sites the quotient and remainder in 128 bits.", "Numbers of pairs that do not fit size_t; indices outside of the range."),
 "C11": ("128 bit fractions, reduced by their own Euclid.", "Operations whose intermediate products overflow, results without representation (a denominator of minus the most negative number); division by zero."),
 "C12": ("128 bit cross products.", "The same, and comparisons across different integer types."),
 "C13": ("A hand written parser of the grammar (optional sign, digits, //, ...); texts with blanks inside are accepted either way.", "Blanks between the parts (formatted extraction skips them; the property does not say); stream flags other than the default."),
 "C14": ("Truth tables of every weak ordering on few elements, as given operators of a client type.", "Base operators that are no strict weak ordering."),
 "C15": ("Exact sums as expansions (error free transformations, checked against 2000 bit integers); the a priori bounds of the two algorithms.", "Sums or intermediates that overflow; infinities and NaN."),
 "C16": ("Exact rational means and variances; tolerance proportional to magnitude over spread times n times epsilon.", "Sums of squares that overflow; number of measurements beyond a few billion is reached by editing a saved state."),
 "C17": ("128 bit sums; states close to the limits are reached by editing saved states by value, not by position.", "The unchecked build beyond its limits (undefined there)."),
 "C18": ("A map from bins to exact sums and counts.", "Reading bins outside of the range; dividing by the results of an empty bin."),
 "C19": ("The two state automaton with five counters.", "Probabilities outside [0, 1] are passed on, not judged."),
 "C20": ("The object that was never saved; text and binary archives.", "The name of a move (documented as not part of the state); numbers that are not finite; archives of other versions."),
 "C21": ("The standard engine itself.", "Corrupted states that are valid states of another stream."),
 "C22": ("The rows computed from the list of measurements and fmt's %e equivalent snprintf.", "Groups without observables beyond 'nothing breaks'; unwritable files."),
 "C23": ("The declared table.", "Enumerators with explicit values (not supported by the macro)."),
 "C24": ("first + k (last - first) / n in long double (128 bit for integers).", "first >= last and n = 0 (asserts); integer lengths that n does not divide."),
 "C25": ("exp of the logarithms in long double; tolerance proportional to k epsilon.", "The same; integer element types; ratios or powers that are not representable."),
 "C26": ("Definitions in 128 bits and Pascal's triangle; long double for interpolation.", "Results that are not representable; n > 61 (few out of many excepted) for binomials."),
 "C27": ("Elementwise loops in 128 bits or long double; exact where the type is.", "Results that do not fit the result type; extremes of empty containers."),
 "C28": ("Partial sums computed like the specification says; the random engine is the environment and the explorer chooses its answers.", "Lists without positive weight, sums that overflow, negative weights."),
 "C29": ("A linear scan; iterators that check every access against the range.", "Unsorted ranges, NaN; forward only iterators (std::distance of the code needs two directions)."),
 "C30": ("Byte comparison; read, lseek and open are interposed and the explorer chooses their answers (short, interrupted, failing).", "Directories, pipes and other files that cannot be measured; files that change meanwhile."),
 "C31": ("Exact comparison of |x - v| with the tolerances in 128 bit floating point; a few ulps of slack at rounded boundaries.", "Infinite and NaN values, tolerances and differences that overflow."),
 "C32": ("Single threaded answers. Real threads, one runs at a time; instrumented memory accesses of all the library code (and of the templates it instantiates) feed a vector clock race detector; synchronization operations are the points where the scheduler may switch (Godefroid: for race free programs these suffice, and races are reported by the detector on any schedule that executes both accesses).", "Code inside of libstdc++.so and libc is not instrumented (the templates of the standard library are, as no instantiation of the shared library is used); weak memory orders of atomics are executed sequentially consistent (but do not order races if relaxed); concurrent modification of one object."),
 "C33": ("The same history replayed on a separate object.", "Moved-from objects are only destroyed or assigned to."),
 "C34": ("g++, clang++ and the linker; every combination of the stated space, programs are run.", "Other compilers than these two; linking and running under clang++ or another standard than C++17 (only compiled)."),
 "C35": ("A model of the state before and after; operator new is the environment: every single allocation of the last call fails in turn.", "Copy assignment under failure (the default one gives the basic guarantee only); calls that allocate on behalf of streams."),
 "C36": ("std::mt19937_64 of the harness.", "Negative or malformed seeds; output errors."),
}
def families(p):
    f = f"harness/{p}.cpp"
    if not os.path.exists(f):
        return []
    return re.findall(r'MC_FAMILY\((\w+), *"((?:[^"\\]|\\.)*)"', open(f).read())
out = [open("tools/design.md").read().rstrip(), "", "## Properties", ""]
man = {c["property"]: c for c in json.load(open("MANIFEST.json"))["checks"]}
for l in open("properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    o, x = N[i]
    out += [f"### {i}. {p['title']}", "",
            f"*Space.* {man[i]['level_note'][0].upper() + man[i]['level_note'][1:]}.", "",
            f"*Oracle.* {o}", "",
            f"*Not claimed.* {x}", "",
            f"*Why beyond the tests.* {p['why_tests_cant']}", ""]
    fs = families(i)
    if fs:
        out += ["Families, each explored completely within its bounds:", ""]
        out += [f"- `{n}`: {w}" for n, w in fs] + [""]
res = {}
if os.path.exists("tools/seeded_results.txt"):
    for l in open("tools/seeded_results.txt"):
        w = l.split(None, 1)
        res[w[0]] = w[1].strip()
out += ["## Planted bugs", "",
        "Each was written from the text of the property and the code, compiles, passes the existing tests, and comes with a demonstration. "
        "The last column: what the quick check of the property said, and what was strengthened if it missed at first.", "",
        "| bug | property | what it needs | check |", "|---|---|---|---|"]
for d in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{d}/meta.json"))
    out.append(f"| {d} | {m['property']} | {m['needs']} | {res.get(d, 'not run yet')} |")
open("DESIGN.md", "w").write("\n".join(out) + "\n")

#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (checks exist if their harness does)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DFS = "bounded exhaustive model checking of the real code (stateless depth-first exploration of every decision sequence) against "
T = {
 "C01": ("an independent mixed-radix model", "all shapes of 1 to 5 dimensions up to a size bound and shapes of up to 24 dimensions, all sites and coordinates, boundary shapes up to 2^63 sites; reference written from the property"),
 "C02": ("the translation group as reference model", "all shapes, all combinations of open and closed axes, all pairs (and triples) of sites up to a size bound; coordinates around the limits of the types"),
 "C03": ("brute-force windings as reference model", "all closed shapes up to a size, all paths up to a depth plus loops winding every axis; large extents at the limits"),
 "C04": ("neighbour lists rebuilt from the unit cell", "all built-in lattices and a family of custom cells, all shapes up to a bound, all boundary combinations; cells of up to more than 2^17 sites, checked in linear time"),
 "C05": ("exhaustive minimum-image search", "all lattices, shapes and boundaries up to a bound, all pairs of sites; image search radius larger than the implementation's with slack for rounding; units of length from tiny to huge; cells of up to more than 2^17 sites, checked in linear time"),
 "C06": ("the dual lattice conditions computed in long double", "all closed lattices and shapes up to a bound, all momenta and sites; cells of up to more than 2^17 sites, checked in linear time"),
 "C07": ("a direct Fourier sum in long double", "all occupations of small lattices over a small alphabet, all momenta; larger lattices; values beyond the precision of narrower types"),
 "C08": ("the answers of the queries; every table parsed back", "all lattices and shapes up to a bound; all save calls, also into unwritable places; tables of more than 2^16 rows"),
 "C09": ("matrix identities in long double", "all built-in and custom cells over an alphabet of vectors, coordinate boxes"),
 "C10": ("explicit enumeration of the pairs", "all numbers of sites up to a bound and around powers of two up to the limit of the type"),
 "C11": ("exact rational arithmetic in 128 bits", "all pairs of rationals of a box and of the boundaries of every integer type, all operations, expression trees up to a depth"),
 "C12": ("exact cross products in 128 bits", "all pairs of a box and of the boundaries, all operators and mixed types"),
 "C13": ("a reference parser; every text over an alphabet up to a length", "all rationals of a box; all texts up to a length over the alphabet of the grammar"),
 "C14": ("relations defined by truth tables", "all relations on small sets given as definitions of the base operators"),
 "C15": ("exact sums (expansions) and a-priori error bounds", "all sequences over alphabets of cancelling numbers up to a depth, all splits; ranges of every kind of iterator; long repetitive histories"),
 "C16": ("exact rational means and variances", "all histories up to a depth over alphabets of numbers and weights incl. Reset, repetition up to large counts"),
 "C17": ("exact 128 bit sums", "all histories up to a depth over boundary values of every integer type, checks on and off"),
 "C18": ("a map from bins to sums as model", "all histories of all operations (Add, ForceAdd, Resize, Reset) up to a depth, with and without continuation from huge counts; all divisions; numbers of bins around powers of two up to 2^17"),
 "C19": ("the propose/resolve automaton as model", "all protocol-conforming and all misusing histories up to a depth; states restored near the limits of the counters"),
 "C20": ("the unsaved object as reference", "all histories up to a depth x all save points x archives x fresh and used targets x continuations"),
 "C21": ("the standard engine as reference", "all numbers of draws around refill points x archives x all truncations and token corruptions"),
 "C22": ("a model of the rows", "all histories of adding, updating, printing, clearing up to a depth; tens of thousands of observables, names of 2^17 characters"),
 "C23": ("the declared table as model", "all enumerators, all texts over an alphabet up to a length, all round trips"),
 "C24": ("exact points", "all sequences over alphabets of begin, end and count, all iterator histories up to a depth; up to 2^53 steps and beyond the point 2^32"),
 "C25": ("points in long double", "all sequences over alphabets of begin, end and count, all iterator histories up to a depth; up to 2^53 steps"),
 "C26": ("definitions computed in 128 bits and Pascal's triangle", "all values of the 8 and 16 bit types, boundaries of the others, all pairs of boxes"),
 "C27": ("elementwise definitions", "all contents over small alphabets up to a length, every container and element type of a list; containers of more than 2^16 elements"),
 "C28": ("exact interval arithmetic of the partial sums; the random engine is the environment, all its answers explored", "all weight vectors over an alphabet up to a length x all engine answers of a grid with both extremes; lists of more than 2^16 weights"),
 "C29": ("a linear scan", "all short ranges over an alphabet; long ones made of few blocks in all ways; iterators that check their range; computed ranges of up to 2^45 elements"),
 "C30": ("byte comparison; the operating system is the environment, all its bounded misbehaviours explored", "all pairs of small files; large ones differing at buffer boundaries; all patterns of short reads, interruptions and errors up to a number of faults"),
 "C31": ("exact tolerance arithmetic", "all values, centres and tolerances over an alphabet with boundary cases, all operators, both sides, histories of setters"),
 "C32": ("the answers of a single thread; real threads under a controlled scheduler, memory accesses of the library and of the templates of the standard library instrumented", "all schedules of two or three threads up to a preemption bound at synchronization operations, happens-before race detection over all instrumented accesses on each of them; all orders of queries up to a depth"),
 "C33": ("the history replayed on a separate object", "all histories up to a depth x all points and kinds of copying x all continuations of both objects"),
 "C34": ("the compiler and linker as oracle over every combination", "every header alone, all ordered pairs, all pairs of translation units, all headers in several units, with checks on and off; a client calling the API"),
 "C35": ("the state before and after as model; the allocator is the environment", "all histories up to a depth x every allocation of the last call failing"),
 "C36": ("the standard engine as reference", "all seeds of the stated set, one run of the tool each"),
}
have = lambda p: any(os.path.exists(f"{V}/harness/{p}.{e}") for e in ("cpp", "py"))
checks, na = [], []
for l in open(f"{V}/properties.jsonl"):
    p = json.loads(l)["id"]
    if not have(p):
        na.append({"property": p, "reason": "its check is not built yet"})
        continue
    t, n = T[p]
    checks.append({"property": p, "quick_cmd": f"python3 run.py {p}",
                   "thorough_cmd": f"python3 run.py {p} --tier thorough",
                   "evidence_file": f"evidence/{p}.json",
                   "technique": DFS + t, "level": "model_checking", "level_note": n})
json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks,
           "not_applicable": na}, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")

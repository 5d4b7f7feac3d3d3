#!/usr/bin/env python3
"""Driver of the checks:  python3 run.py C01 [--tier quick|thorough]
                          python3 run.py --replay replays/C01-....json
                          python3 run.py --setup

Builds harness/<ID>.cpp against the working tree of /repo in two variants
(optimized, sanitized), explores every decision sequence of every family, and
writes evidence/<ID>.json.  Exit 0: the property held on everything explored;
exit 1 and a VIOLATION line: it does not; anything else: error of the check.
"""
import argparse
import concurrent.futures
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BWSL_REPO", "/repo")
START = time.time()
JOBS = max(1, min(8, os.cpu_count() or 8))

COMMON = ["-std=gnu++17", "-I" + REPO + "/include", "-I" + VERIF + "/lib",
          "-DFMT_HEADER_ONLY", "-w", "-fno-diagnostics-color"]
VARIANTS = {
    "opt": ["-O2", "-g1", "-DNDEBUG", "-ftrivial-auto-var-init=pattern"],
    "san": ["-O1", "-g1", "-fsanitize=address,undefined",
            "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
            "-D_GLIBCXX_ASSERTIONS"],
}
LIBS = ["-lboost_serialization", "-lpthread"]
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:"
                    "allocator_may_return_null=0:hard_rss_limit_mb=3500:"
                    "detect_stack_use_after_return=1:strict_string_checks=1:"
                    "detect_invalid_pointer_pairs=2:max_allocation_size_mb=3000",
    "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:exitcode=77",
}


class BuildError(Exception):
    pass


class CheckError(Exception):
    pass


def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, env=e, cwd=cwd)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def compile_cxx(src, out, flags, libs=LIBS, cxx="g++", timeout=600):
    """Compile and link; BuildError when the compiler rejects the sources."""
    cmd = [cxx] + COMMON + flags + [src, "-o", out] + libs
    if out.endswith(".o"):
        cmd.insert(1, "-c")
    log = ""
    for attempt in range(2):
        rc, log = sh(cmd, timeout)
        if rc == 0:
            return
    # Is it the program or the toolchain?
    probe = out + ".probe.cpp"
    with open(probe, "w") as f:
        f.write("#include <vector>\n#include <boost/archive/text_oarchive.hpp>\n"
                "int main(){std::vector<int> v(3); return v.size()-3;}\n")
    rc2, log2 = sh([cxx] + COMMON + flags + [probe, "-o", out + ".probe"] + LIBS, timeout)
    if rc2 != 0:
        raise CheckError("the toolchain does not work here:\n" + log2[-3000:])
    raise BuildError(" ".join(cmd) + "\n" + log[:6000])


def directives(src):
    d = {"flags": [], "variants": ["opt", "san"], "libs": [], "units": [], "programs": []}
    with open(src) as f:
        for line in f:
            m = re.match(r"//\s*mc-(\w+):\s*(.*)$", line)
            if m and m.group(1) == "unit":  # another translation unit, own flags
                d["units"].append(m.group(2).split())
            elif m and m.group(1) == "program":  # a program of the repository
                d["programs"].append(m.group(2).split())
            elif m:
                d[m.group(1)] = m.group(2).split()
    return d


def properties():
    with open(os.path.join(VERIF, "properties.jsonl")) as f:
        return {p["id"]: p for p in map(json.loads, f)}


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"known: property=(\S+)\s+(.*)$", line.strip())
                if m and m.group(1) == prop:
                    out.append(m.group(2))
    return out


def write_evidence(prop, ev):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)


def save_replay(prop, data):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, data.get("variant", "build")))
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")
    return os.path.relpath(path, VERIF)


def run_variant(binary, variant, tier, build, jobs=JOBS, extra=None, env=None):
    out = os.path.join(build, "out-%s.json" % os.path.basename(binary))
    scratch = os.path.join(build, "scratch-" + os.path.basename(binary))
    e = dict(SAN_ENV) if variant == "san" else {}
    e.update(env or {})
    e.setdefault("LC_ALL", "C")
    limit = max(60, (840 if tier == "quick" else 14000) - (time.time() - START))
    for attempt in range(2):
        shutil.rmtree(scratch, ignore_errors=True)
        os.makedirs(scratch)
        cmd = [binary, "--tier", tier, "--jobs", str(jobs), "--out", out,
               "--scratch", scratch, "--hang", "40" if attempt == 0 else "200"]
        try:
            rc, log = sh(cmd + (extra or []), limit, env=e, cwd=scratch)
        except subprocess.TimeoutExpired:
            raise CheckError("variant %s exceeded %d s" % (variant, limit))
        if rc == 2:
            sys.stderr.write("unconfirmed failure, once more: %s\n" % open(out).read()[:1500])
            continue
        break
    if rc not in (0, 1):
        raise CheckError("explorer failed (%d) in variant %s:\n%s" % (rc, variant, log[-3000:]))
    with open(out) as f:
        return json.load(f)


def build_harness(src, out, variant, d):
    objs = []
    for i, u in enumerate(d["units"]):
        o = "%s-unit%d.o" % (out, i)
        compile_cxx(os.path.join(VERIF, "harness", u[0]), o, VARIANTS[variant] + u[1:], libs=[])
        objs.append(o)
    defs = []
    for name, path, *flags in d["programs"]:
        o = "%s-program-%s" % (out, name)
        compile_cxx(os.path.join(REPO, path), o, VARIANTS[variant] + flags)
        defs.append('-DMC_PROGRAM_%s="%s"' % (name.upper(), o))
    # inline functions that several units define come from the first one
    first = objs if d.get("first") else []
    compile_cxx(src, out, VARIANTS[variant] + d["flags"] + defs + first,
                libs=([] if first else objs) + d["libs"] + LIBS)


def mc_property(prop, tier, build):
    """The usual case: one C++ harness, explored in each of its variants."""
    src = os.path.join(VERIF, "harness", prop + ".cpp")
    d = directives(src)
    bins = {}

    def one(v):
        b = os.path.join(build, v)
        build_harness(src, b, v, d)
        return v, b

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for v, b in ex.map(one, d["variants"]):
            bins[v] = b
    res = []
    for v in d["variants"]:
        r = run_variant(bins[v], v, tier, build)
        r["variant"] = v
        res.append(r)
        if r["violated"]:
            rep = dict(r["replay"], variant=v, property=prop, tier=tier)
            return res, rep
    return res, None


def evidence_of(prop, tier, seed, res, wall, rep):
    d = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r["states"] for r in res),
            "transitions": sum(r["transitions"] for r in res),
            "traces_validated_against_impl": sum(r["executions"] for r in res),
            "checks": sum(r.get("checks", 0) for r in res),
            "exhaustive": all(r["exhaustive"] for r in res) and rep is None,
            "rule": "states: distinct abstract states (model state and observed answers, "
                    "hashed) reached by any execution; transitions: operations of the real "
                    "code; traces: complete decision sequences, each one executed on the "
                    "real code and compared with the reference model at every step; every "
                    "decision sequence within the bounds of every family is executed",
            "variants": [{k: r[k] for k in r if k not in ("replay", "samples")} for r in res],
            "samples": [s for r in res for s in r["samples"]][:40],
        },
        "assumptions": [
            "values outside the alphabets of the families and histories beyond their bounds are not covered",
            "g++ 13, libstdc++, Boost 1.83 and fmt 9 of this sandbox are trusted",
        ],
        "wall_s": round(wall, 2),
        "violations": 0 if rep is None else 1,
    }
    return d


def check(prop, tier, seed):
    t0 = time.time()
    build = os.path.join(VERIF, "build", "%s-%d" % (prop, os.getpid()))
    os.makedirs(build)
    try:
        custom = os.path.join(VERIF, "harness", prop + ".py")
        try:
            if os.path.exists(custom):
                spec = importlib.util.spec_from_file_location("custom_" + prop, custom)
                mod = importlib.util.module_from_spec(spec)
                spec.loader.exec_module(mod)
                res, rep = mod.run(sys.modules[__name__], prop, tier, build)
            else:
                res, rep = mc_property(prop, tier, build)
        except BuildError as e:
            rep = {"mode": "build", "variant": "build", "property": prop, "tier": tier,
                   "message": "a client program that only uses the documented interface "
                              "does not build any more: " + str(e)}
            res = [{"variant": "build", "states": 0, "transitions": 0, "executions": 0,
                    "exhaustive": False, "samples": ["client program harness/%s" % prop]}]
        ev = evidence_of(prop, tier, seed, res, time.time() - t0, rep)
        write_evidence(prop, ev)
        for k in known_findings(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        c = ev["coverage"]
        print("%s %s: %d states, %d transitions, %d executions, %d checks, %.1f s" % (
            prop, tier, c["states"], c["transitions"],
            c["traces_validated_against_impl"], c["checks"], ev["wall_s"]))
        if rep is not None:
            print("  " + rep.get("message", "")[:3000])
            for line in rep.get("trace", [])[-25:]:
                print("    " + line[:300])
            print("VIOLATION property=%s replay=%s" % (prop, save_replay(prop, rep)))
            return 1
        if c["traces_validated_against_impl"] == 0 or c["states"] == 0:
            raise CheckError("nothing was explored")
        return 0
    finally:
        if not os.environ.get("KEEP_BUILD"):
            shutil.rmtree(build, ignore_errors=True)


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    prop = rep["property"]
    build = os.path.join(VERIF, "build", "replay-%d" % os.getpid())
    os.makedirs(build)
    try:
        custom = os.path.join(VERIF, "harness", prop + ".py")
        if os.path.exists(custom) or rep["mode"] == "build":
            print(json.dumps(rep, indent=1))
            return check(prop, rep.get("tier", "quick"), 1)
        src = os.path.join(VERIF, "harness", prop + ".cpp")
        d = directives(src)
        v = rep["variant"]
        b = os.path.join(build, v)
        build_harness(src, b, v, d)
        sc = os.path.join(build, "scratch")
        os.makedirs(sc)
        cmd = [b, "--tier", rep["tier"], "--scratch", sc, "--jobs", str(rep["jobs"])]
        if rep["mode"] == "shard":
            cmd += ["--shard", str(rep["shard"])]
        else:
            cmd += ["--replay", rep["family"], rep["choices"]]
        rc, log = sh(cmd, 900, env=dict(SAN_ENV, LC_ALL="C"), cwd=sc)
        print(log)
        return rc
    finally:
        shutil.rmtree(build, ignore_errors=True)


def setup():
    for t in ("g++", "clang++", "nm"):
        if shutil.which(t) is None:
            print("missing", t)
            return 2
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    print("ready")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        return setup()
    if a.replay:
        return replay(a.replay)
    if a.property not in properties():
        print("unknown property", a.property)
        return 2
    try:
        return check(a.property, "thorough" if a.tier == "thorough" else "quick", a.seed)
    except CheckError as e:
        print("CHECK ERROR:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())

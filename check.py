#!/usr/bin/env python3
"""
check.py <property> [--tier quick|thorough] [-v]    decide one property for the current /repo
check.py --replay <file>                            replay a recorded counterexample
"""
import sys
import os
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

VT = "/opt/veriftools/pyvenv/bin/python3"
try:
    import z3
except ImportError:
    if os.path.exists(VT) and not os.environ.get("SYMEX_REEXEC"):
        os.environ["SYMEX_REEXEC"] = "1"
        os.execv(VT, [VT] + sys.argv)
    raise

import argparse
import importlib
import json
import time

from symex import runner


def known_findings():
    """Entries 'known: {json}' of known_findings.txt ('fixed:' entries suppress nothing)"""
    ret = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known:"):
                ret.append(json.loads(line[len("known:"):]))
    return ret


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs = "?")
    ap.add_argument("--tier", default = os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("-v", action = "store_true")
    ap.add_argument("--budget", type = float, default = None)
    a = ap.parse_args()

    if a.replay:
        return replay(a.replay)

    prop = a.property
    tier = a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    budget = a.budget or (600 if tier == "quick" else 840)
    deadline = t0 + budget

    mod = importlib.import_module("props." + prop.lower())
    jobs = mod.jobs(tier)
    if a.only:
        jobs = [j for j in jobs if a.only in j["name"]]

    known = [k for k in known_findings() if k["property"] == prop]
    runner.KNOWN = known
    results, stopped = runner.run_jobs(jobs, deadline, verbose = a.v)

    violations = []
    inconclusive = []
    for r in results:
        if r["status"] == "violation":
            violations.append(r)
        elif r["status"] != "ok":
            inconclusive.append(r)

    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    os.makedirs(os.path.join(HERE, "evidence"), exist_ok = True)
    write_evidence(mod, prop, tier, seed, jobs, results, violations, inconclusive, time.time() - t0)

    if violations:
        r = violations[0]
        c = r["confirmed"][0]
        path = os.path.join(HERE, "evidence", "replay-%s.json" % prop)
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "harness": r["name"], "label": c["label"], "inputs": c["inputs"], "detail": c["detail"], "replay": c["replay"]}, f, indent = 1, default = str)
        print("%s: %s: assertion '%s' fails for %s %s" % (prop, r["name"], c["label"], json.dumps(c["inputs"], default = str), c["detail"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1

    if inconclusive:
        for r in inconclusive:
            print("INCONCLUSIVE %s: %s" % (r["name"], r["message"]))
        return 2

    paths = sum(r["paths"] for r in results)
    print("%s: held on all %d paths of %d harnesses (%d assertions decided, %d solver queries, %.1fs solver, %.1fs wall)" % (
        prop, paths, len(results), sum(r["asserts"] for r in results), sum(r["queries"] for r in results),
        sum(r["solver_s"] for r in results), time.time() - t0))
    return 0


def write_evidence(mod, prop, tier, seed, jobs, results, violations, inconclusive, wall):
    full = [r for r in results if "paths" in r]
    funcs = set()
    for r in full:
        for f in r["functions"]:
            funcs.add(tuple(f))
    samples = []
    for r in full:
        samples += r.get("samples", [])[:1]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": sum(r["nodes"] + r["paths"] for r in full),
            "transitions": sum(r["edges"] for r in full),
            "traces_validated_against_impl": sum(r["validated"] for r in full),
            "samples": samples[:6],
            "explanation": "states: branch points plus leaves of the symbolic execution trees; transitions: branch outcomes followed; every leaf stands for all input values satisfying its path condition",
            "paths": sum(r["paths"] for r in full),
            "assertions_decided": sum(r["asserts"] for r in full),
            "queries": sum(r["queries"] for r in full),
            "queries_unsat": sum(r["unsat"] for r in full),
            "solver_s": round(sum(r["solver_s"] for r in full), 3),
            "bounds": getattr(mod, "BOUNDS", {}).get(tier, getattr(mod, "BOUNDS", {}).get("quick", "")),
            "outside": getattr(mod, "OUTSIDE", ""),
            "functions_encoded": ["%s:%s" % f for f in sorted(funcs) if f[1] != "<module>"],
            "harnesses": [{
                "name": r["name"], "status": r["status"], "paths": r.get("paths"), "queries": r.get("queries"),
                "solver_s": round(r.get("solver_s", 0), 3), "reachable_assertions": r.get("reached"),
                "known_findings_met": r.get("known", 0)
            } for r in results][:400],
            "exhaustive": not inconclusive and not violations
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
            "CPython semantics: unbounded ints, IEEE double floats (CircuitPython's short floats are outside the claim)",
            "hardware libraries and the clock are the stubs in symex/stubs",
        ],
        "wall_s": round(wall, 2),
        "violations": len(violations)
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent = 1, default = str)


def replay(path):
    with open(path) as f:
        r = json.load(f)
    mod = importlib.import_module("props." + r["property"].lower())
    for tier in (r.get("tier", "quick"), "thorough", "quick"):
        for j in mod.jobs(tier):
            if j["name"] == r["harness"]:
                st = runner.run_concrete(j["fn"], j["params"], r["inputs"])
                print(st[:3])
                if st[0] in ("failed", "exception", "timeout"):
                    print("VIOLATION property=%s replay=%s" % (r["property"], path))
                    return 1
                return 0
    print("harness not found")
    return 2


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/defs.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from defs import PROPS, NOT_APPLICABLE

LIB = "content/lib/pyswitch/"
TECHNIQUE = "path-exhaustive symbolic execution of the real Python source, assertions decided by z3"
NOTE = ("Every path of the real code within the stated bounds is executed symbolically and every assertion is decided by z3 for all "
        "input values of the path; counterexamples are replayed on the unmodified code before they are reported. Trusts the symbolic "
        "value model (validated on sampled paths against concrete runs), z3, CPython semantics and the hardware library stubs. Bounds: ")


def main():
    sys.path.insert(0, VERIF)
    import importlib
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS + [n["prop"] for n in NOT_APPLICABLE]:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in PROPS:
        src = open(os.path.join(VERIF, "props", p["id"].lower() + ".py")).read()
        ns = {}
        # only the BOUNDS / OUTSIDE constants are needed (no z3 here)
        import ast
        for node in ast.parse(src).body:
            if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("BOUNDS", "OUTSIDE"):
                ns[node.targets[0].id] = ast.literal_eval(node.value)
        b = ns["BOUNDS"]
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
            "technique": TECHNIQUE,
            "level": "model_checking",
            "level_note": NOTE + b["quick"] + " (thorough: " + b["thorough"] + ")." + (" Outside: " + ns["OUTSIDE"] + "." if ns.get("OUTSIDE") else "")
        })
    man = {
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "checks": checks,
        "not_applicable": [{"property": n["prop"]["id"], "reason": n["reason"]} for n in NOT_APPLICABLE],
        "notes": "No hooks in /repo are needed. Repairs of genuine defects are the fix: commits listed in known_findings.txt."
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent = 1)
        f.write("\n")

    import design_tail
    design_tail.build(VERIF, PROPS, NOT_APPLICABLE)

    try:
        import jsonschema
    except ImportError:
        return
    if os.path.exists("/root/.vp/MANIFEST.schema.json"):
        jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
        sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for line in open(os.path.join(VERIF, "properties.jsonl")):
            jsonschema.validate(json.loads(line), sch)
        print("valid: %d checks, %d not applicable" % (len(checks), len(NOT_APPLICABLE)))


if __name__ == "__main__":
    main()

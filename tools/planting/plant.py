"""Plants bugs: python3 plant.py SPEC.py [ID...]
SPEC.py defines BUG(id, property, file, [(old, new)...], needs, breaks, demo) entries. For each: scratch copy of /repo, edit, tests,
demo on both, then the check (quick) against the scratch copy. Writes /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
bugs = []
def BUG(id, prop, edits, needs, breaks, demo):
    bugs.append((id, prop, edits, needs, breaks, demo))
spec = sys.argv[1]
exec(open(spec).read())
only = sys.argv[2:]
def run(cmd, cwd, env = None, t = 900):
    e = dict(os.environ); e["PYTHONDONTWRITEBYTECODE"] = "1"; e.update(env or {})
    return subprocess.run(cmd, cwd = cwd, env = e, shell = True, capture_output = True, text = True, timeout = t)
for id, prop, edits, needs, breaks, demo in bugs:
    if only and id not in only: continue
    W = "/tmp/plant-" + id
    shutil.rmtree(W, ignore_errors = True)
    os.makedirs(W)
    run("cp -a /repo %s/repo && mkdir %s/root && ln -s %s/repo/content/lib %s/root/lib" % (W, W, W, W), "/")
    R = W + "/repo"
    d = VERIF + "/seeded/" + id
    shutil.rmtree(d, ignore_errors = True)
    os.makedirs(d)
    open(d + "/demo.py", "w").write("from env import *\n" + demo.strip() + "\nprint(\"ok\")\n")
    shutil.copy(HERE + "/env.py", d + "/env.py")
    open(d + "/demo.sh", "w").write("#!/bin/bash\nexec python3 -B \"$(dirname \"$0\")/demo.py\"\n")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent = 2)
    ok = True
    a = run("bash %s/demo.sh" % d, R)
    if a.returncode != 0:
        print(id, "DEMO FAILS UNCHANGED", a.stdout[-500:], a.stderr[-1500:]); ok = False
    for f, old, new in edits:
        p = R + f if f[0] == "/" else R + "/content/lib/pyswitch/" + f
        t = open(p).read()
        if t.count(old) != 1:
            print(id, "EDIT NOT UNIQUE", f, t.count(old)); ok = False; continue
        open(p, "w").write(t.replace(old, new))
    open(d + "/patch.diff", "w").write(run("git diff", R).stdout)
    b = run("bash %s/demo.sh" % d, R)
    if b.returncode == 0:
        print(id, "DEMO PASSES WITH BUG"); ok = False
    elif "FAIL" not in b.stdout:
        print(id, "demo crash:", b.stderr[-300:])
    t = run("/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --rootdir=%s test/pyswitch 2>&1 | tail -8" % R, R, {"PYTHONPATH": W + "/root", "PYTEST_DISABLE_PLUGIN_AUTOLOAD": "1", "PYTHONHASHSEED": "0"})
    if " failed" in t.stdout or "340 passed" not in t.stdout:
        print(id, "TESTS FAIL", t.stdout[-600:]); ok = False
    c = run("python3 check.py %s" % prop, VERIF, {"VERIF_REPO": R})
    print(id, prop, "valid" if ok else "INVALID", "CAUGHT" if c.returncode == 1 and "VIOLATION property=" + prop in c.stdout else "MISSED rc=%d" % c.returncode, c.stdout.strip().splitlines()[0][:250] if c.stdout else c.stderr[-300:])
    shutil.rmtree(W)
    if not ok: shutil.rmtree(d)

"""Mutation campaign (development tool, not a check): finds small changes which pass the existing tests.

mutate.py survive OUT.jsonl N SEED [FILE...]   sample N mutants, keep those passing the tests
mutate.py check IN.jsonl OUT.jsonl             run the checks anchored to the file of each survivor (except SKIPIDS)
"""
import ast, json, os, random, shutil, signal, subprocess, sys, multiprocessing as mp, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
LIB = os.environ.get("BASE", "content/lib/pyswitch/")       # BASE: other folder of /repo, NOTEST=1: keep all (no test covers the folder)
SKIP = ("parser", "mocks") if "BASE" in os.environ else ("stats.py",) if "NOTEST" in os.environ else ("stats.py", "debug_tools.py", "hardware/adafruit", "hardware/devices", "controller/explore.py")


def files():
    ret = []
    for d, ds, fs in os.walk("/repo/" + LIB):
        for f in fs:
            p = os.path.join(d, f)[len("/repo/" + LIB):]
            if f.endswith(".py") and not p.startswith(SKIP) and f != "__init__.py" or f == "__init__.py" and os.path.getsize(os.path.join(d, f)) > 50 and not p.startswith(SKIP):
                ret.append(p)
    return sorted(ret)


CMP = {ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["+"], ast.Div: ["*"], ast.FloorDiv: ["*"], ast.Mod: ["+"], ast.BitAnd: ["|"], ast.BitOr: ["&"], ast.LShift: [">>"], ast.RShift: ["<<"]}


def mutants(path):
    src = open("/repo/" + LIB + path).read()
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()

    def pos(n, end = False):
        return offs[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    def seg(n):
        return b[pos(n):pos(n, True)].decode()

    out = []

    def sub(a, e, new, n, what):
        out.append((n.lineno, what, (b[:a] + new.encode() + b[e:]).decode()))

    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    infunc = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for c in ast.walk(n):
                if c is not n:
                    infunc.add(c)
    for n in ast.walk(tree):
        if n not in infunc and not isinstance(n, ast.Constant):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for new in CMP.get(type(n.ops[0]), []):
                sub(pos(n.left, True), pos(n.comparators[0]), " " + new + " ", n, "compare " + new)
        elif isinstance(n, ast.BinOp):
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            for new in BIN.get(type(n.op), []):
                mid = b[pos(n.left, True):pos(n.right)].decode()
                if set(mid) - set(" +-*/%&|<>"):
                    continue
                sub(pos(n.left, True), pos(n.right), " " + new + " ", n, "operator " + new)
        elif isinstance(n, ast.BoolOp):
            new = " or " if isinstance(n.op, ast.And) else " and "
            for x, y in zip(n.values, n.values[1:]):
                mid = b[pos(x, True):pos(y)].decode()
                if mid.strip() not in ("and", "or"):
                    continue
                sub(pos(x, True), pos(y), new, n, "bool" + new)
            for x in n.values:
                sub(pos(x), pos(x, True), "True" if isinstance(n.op, ast.And) else "False", n, "drop operand " + seg(x)[:40])
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            sub(pos(n), pos(n.operand), "", n, "drop not")
        elif isinstance(n, (ast.If, ast.While)):
            t = n.test
            sub(pos(t), pos(t, True), "not (" + seg(t) + ")", n, "negate")
            if isinstance(n, ast.If):
                sub(pos(t), pos(t, True), "True", n, "always")
                sub(pos(t), pos(t, True), "False", n, "never")
        elif isinstance(n, ast.Constant):
            p = parents.get(n)
            if isinstance(p, ast.Expr) or isinstance(p, ast.arguments) and False:
                continue
            if n.value is True or n.value is False:
                sub(pos(n), pos(n, True), repr(not n.value), n, "constant")
            elif isinstance(n.value, int):
                sub(pos(n), pos(n, True), repr(n.value + 1), n, "constant +1")
                if n.value:
                    sub(pos(n), pos(n, True), repr(n.value - 1), n, "constant -1")
            elif isinstance(n.value, float):
                sub(pos(n), pos(n, True), repr(n.value * 2), n, "constant *2")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break)):
            if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or "__init__" in seg(n) or "print" in seg(n)):
                continue
            sub(pos(n), pos(n, True), "pass", n, "delete " + seg(n)[:60].replace("\n", " "))
        elif isinstance(n, ast.Return) and parents.get(n) is not None:
            if n.value is None:
                sub(pos(n), pos(n, True), "pass", n, "delete return")
            elif isinstance(n.value, ast.Constant):
                pass
            else:
                sub(pos(n.value), pos(n.value, True), "None", n, "return None")
    ret = []
    for line, what, new in out:
        text = lines[line - 1]
        if "debug" in text or "print" in text or "raise" in text or "__memory" in text:
            continue
        try:
            compile(new, path, "exec")
        except SyntaxError:
            continue
        ret.append({"file": path, "line": line, "what": what, "text": text.strip(), "src": new})
    return ret


def sandbox(n):
    W = "/tmp/mutate-%d" % n
    shutil.rmtree(W, ignore_errors = True)
    os.makedirs(W + "/root")
    os.makedirs(W + "/repo/content")
    subprocess.run("cp -a /repo/content/lib /repo/content/inputs.py /repo/content/display.py %s/repo/content/; cp -a /repo/test %s/repo/; ln -s %s/repo/content/lib %s/root/lib" % (W, W, W, W), shell = True)
    return W


def tests(W):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE = "1", PYTHONPATH = W + "/root", PYTEST_DISABLE_PLUGIN_AUTOLOAD = "1", PYTHONHASHSEED = "0")
    p = subprocess.Popen("/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --rootdir=%s/repo test/pyswitch 2>&1 | tail -3" % W, cwd = W + "/repo", shell = True, stdout = subprocess.PIPE, text = True, env = env, start_new_session = True)
    try:
        out = p.communicate(timeout = 60)[0]
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return False
    return "340 passed" in out and "failed" not in out


def worker(i, q, out):
    W = sandbox(i)
    while True:
        m = q.get()
        if m is None:
            break
        p = W + "/repo/" + LIB + m["file"]
        orig = open(p).read()
        open(p, "w").write(m["src"])
        ok = tests(W)
        open(p, "w").write(orig)
        out.put((m, ok))
    shutil.rmtree(W)
    out.put(None)


def survive(outfile, n, seed, only, procs):
    ms = []
    for f in files():
        if only and not any(f.startswith(o) for o in only):
            continue
        ms += mutants(f)
    print(len(ms), "mutants")
    random.Random(seed).shuffle(ms)
    ms = ms[:n]
    if "NOTEST" in os.environ:
        with open(outfile, "w") as fo:
            for m in ms:
                fo.write(json.dumps(m) + "\n")
        return
    q, out = mp.Queue(), mp.Queue()
    for m in ms:
        q.put(m)
    ps = []
    for i in range(procs):
        q.put(None)
        p = mp.Process(target = worker, args = (i, q, out))
        p.start()
        ps.append(p)
    done = alive = 0
    with open(outfile, "w") as fo:
        left = procs
        while left:
            r = out.get()
            if r is None:
                left -= 1
                continue
            done += 1
            if r[1]:
                alive += 1
                fo.write(json.dumps(r[0]) + "\n")
                fo.flush()
    print("tested", done, "survived", alive)


def anchors():
    ret = {}
    for l in open(VERIF + "/properties.jsonl"):
        p = json.loads(l)
        a = p["anchors"]
        fs = set(a["files"]) | set(m["where"].split(" ")[0] for m in a["mechanism"])
        for f in fs:
            ret.setdefault(f, []).append(p["id"])
    return ret


TIMES = {}


def check(infile, outfile):
    an = anchors()
    evid = {}
    for f in os.listdir(VERIF + "/evidence"):
        pass
    done = set()
    if os.path.exists(outfile):
        for l in open(outfile):
            r = json.loads(l)
            done.add((r["file"], r["line"], r["what"]))
    W = "/tmp/mutcheck-%d" % os.getpid()
    for l in open(infile):
        m = json.loads(l)
        if (m["file"], m["line"], m["what"]) in done:
            continue
        done.add((m["file"], m["line"], m["what"]))
        shutil.rmtree(W, ignore_errors = True)
        os.makedirs(W)
        subprocess.run("cp -a /repo/content %s/; mkdir -p %s/web/htdocs; cp -a /repo/web/htdocs/python %s/web/htdocs/; ln -s /repo/examples %s/examples" % (W, W, W, W), shell = True)
        open(W + "/" + LIB + m["file"], "w").write(m["src"])
        ids = []
        for f, x in an.items():
            if (LIB + m["file"]).startswith(f):
                ids += x
        ids = sorted(set(ids) - set(os.environ.get("SKIPIDS", "").split()), key = lambda i: TIMES.get(i, 10))
        caught = None
        res = {}
        for i in ids:
            t = time.time()
            try:
                c = subprocess.run("python3 check.py %s" % i, cwd = VERIF, shell = True, capture_output = True, text = True, env = dict(os.environ, VERIF_REPO = W), timeout = 700)
                res[i] = c.returncode
            except subprocess.TimeoutExpired:
                res[i] = "timeout"
                c = None
            if res[i] == 0:
                TIMES[i] = time.time() - t
            if c is not None and c.returncode == 1 and "VIOLATION" in c.stdout:
                caught = i
                break
        r = {"file": m["file"], "line": m["line"], "what": m["what"], "text": m["text"], "caught": caught, "checks": res}
        with open(outfile, "a") as fo:
            fo.write(json.dumps(r) + "\n")
        shutil.rmtree(W)


if __name__ == "__main__":
    if sys.argv[1] == "survive":
        survive(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5:], int(os.environ.get("PROCS", 7)))
    else:
        check(sys.argv[2], sys.argv[3])

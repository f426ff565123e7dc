"""
Runs the harnesses of one property: exploration in parallel worker processes, replay of counterexamples against the
unmodified code, validation of sampled symbolic paths against concrete runs, evidence.
"""
import gc
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

from . import engine as E
from . import harness as H
from . import loader as L

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# ---------------------------------------------------------------- function coverage

_functions = set()

def start_monitor():
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, "symex")
    except ValueError:
        return
    repo = L.REPO

    def start(code, offset):
        f = code.co_filename
        if f.startswith(repo):
            _functions.add((f[len(repo) + 1:], code.co_qualname))
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


# ---------------------------------------------------------------- concrete replay

class ReplayTimeout(E.Control):
    pass


def run_concrete(fn, params, inputs, seconds = 20):
    """Returns (status, label, detail, observations): status in ok / failed / exception / timeout / infeasible"""
    s = None
    def onalarm(sig, frame):
        raise ReplayTimeout()
    old = signal.signal(signal.SIGPROF, onalarm)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        s = H.ConcreteS(inputs)
        fn(s, **params)
        return ("ok", "", "", s.observations)
    except H.Failed as f:
        return ("failed", f.label, f.detail, s.observations)
    except E.Infeasible:
        return ("infeasible", "", "", [])
    except ReplayTimeout:
        return ("timeout", "terminates", "no result within %ss" % seconds, [])
    except Exception as ex:
        return ("exception", "no-exception:" + type(ex).__name__, exception_text(ex), [] if s is None else s.observations)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def exception_text(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    where = [f for f in tb if f.filename.startswith(L.REPO)]
    loc = ""
    if where:
        loc = " at %s:%s (%s)" % (where[-1].filename[len(L.REPO) + 1:], where[-1].lineno, where[-1].name)
    return repr(ex) + loc


# ---------------------------------------------------------------- known findings

KNOWN = []          # entries of known_findings.txt for the property being checked


def is_known(harness, label, inputs):
    """A listed finding: same harness (config), assertion and exactly the listed inputs (a python expression over the
    input values, None if an input does not exist)"""
    class Inputs(dict):
        def __missing__(self, k):
            return None
    for k in KNOWN:
        if k["harness"] in harness and k["label"] == label:
            for i in range(8):
                ns = Inputs({n[:-1]: v for n, v in inputs.items() if n[-1] == str(i)})
                if eval(k["inputs"], {"__builtins__": {}}, ns):
                    return True
    return False


# ---------------------------------------------------------------- one job

def run_job(job, deadline, outq = None):
    """Explore one harness with one parameter set"""
    fn = job["fn"]
    params = job["params"]
    t0 = time.time()
    res = {
        "name": job["name"], "status": "ok", "confirmed": [], "unconfirmed": [], "message": "",
        "validated": 0, "validation_errors": [], "samples": [], "functions": []
    }

    def run_path(engine):
        s = H.SymS(engine)
        try:
            fn(s, **params)
        except Exception as ex:
            engine.check(False, "no-exception:" + type(ex).__name__, exception_text(ex) + (traceback.format_exc() if os.environ.get("SYMEX_DEBUG") else ""))

    eng = E.Engine(run_path, deadline, path_seconds = job.get("path_seconds", 20))

    def resume():
        # the replay has stopped the path timer
        eng.guard.start(eng.path_seconds, eng)
        eng.guard.depth = 1
        E.ENGINE = eng

    def on_violation(v):
        st, label, detail, obs = run_concrete(fn, params, v.inputs)
        rec = {"label": v.label, "inputs": v.inputs, "detail": v.detail, "replay": [st, label, detail]}
        if st in ("failed", "exception", "timeout") and is_known(job["name"], label, v.inputs):
            res["known"] = res.get("known", 0) + 1
            resume()
            return
        if st in ("failed", "exception", "timeout"):
            rec["label"] = label
            rec["detail"] = detail or v.detail
            res["confirmed"].append(rec)
            raise E.ViolationFound()
        res["unconfirmed"].append(rec)
        resume()
        if len(res["unconfirmed"]) > 20:
            raise E.Inconclusive("counterexamples do not reproduce: " + json.dumps(rec, default = str)[:1500])

    def suspect(model):
        inputs = eng.extract(model)
        st, label, detail, obs = run_concrete(fn, params, inputs)
        E.ENGINE = eng
        if st in ("failed", "exception", "timeout"):
            res["confirmed"].append({"label": label, "inputs": inputs, "detail": detail, "replay": [st, label, detail]})
            raise E.ViolationFound()
        return False

    eng.on_violation = on_violation
    eng.suspect = suspect

    try:
        eng.explore()
    except E.ViolationFound:
        res["status"] = "violation"
    except E.Inconclusive as ex:
        res["status"] = "inconclusive"
        res["message"] = type(ex).__name__ + ": " + str(ex)
    except E.Control as ex:
        res["status"] = "inconclusive"
        res["message"] = "engine: " + type(ex).__name__
    except Exception as ex:
        res["status"] = "inconclusive"
        res["message"] = "engine error: " + traceback.format_exc()[-1500:]
    finally:
        eng.guard.stop()

    if res["status"] == "ok" and res["unconfirmed"]:
        res["status"] = "inconclusive"
        res["message"] = "%d counterexample(s) do not reproduce on the real code, first: %s" % (len(res["unconfirmed"]), json.dumps(res["unconfirmed"][0], default = str)[:1500])

    # translator validation
    if res["status"] == "ok":
        for smp in eng.samples:
            st, label, detail, obs = run_concrete(fn, params, smp["inputs"])
            if st != "ok":
                res["validation_errors"].append({"inputs": smp["inputs"], "result": [st, label, detail]})
                continue
            if not smp["overapprox"]:
                a = [[l, norm(v)] for l, v in smp["observations"]]
                b = [[l, norm(v)] for l, v in obs]
                if a != b:
                    res["validation_errors"].append({"inputs": smp["inputs"], "symbolic": a, "real": b})
                    continue
            res["validated"] += 1
            if len(res["samples"]) < 2:
                res["samples"].append({"harness": job["name"], "inputs": smp["inputs"], "observed": [[l, norm(v)] for l, v in obs][:20]})
        if res["validation_errors"]:
            res["status"] = "inconclusive"
            res["message"] = "symbolic execution disagrees with a concrete run: " + json.dumps(res["validation_errors"][0], default = str)[:1500]
        missing = [l for l in job.get("expect", []) if l not in eng.reached]
        if missing:
            res["status"] = "inconclusive"
            res["message"] = "vacuous: assertions never reached: " + ", ".join(missing)
        elif not eng.reached:
            res["status"] = "inconclusive"
            res["message"] = "vacuous: no assertion reached"

    res.update({
        "paths": eng.paths, "nodes": eng.nodes, "edges": eng.edges, "queries": eng.queries, "sat": eng.sat, "unsat": eng.unsat,
        "asserts": eng.asserts, "solver_s": eng.solver_s, "wall_s": time.time() - t0, "reached": dict(eng.reached),
        "functions": sorted(_functions), "infeasible": eng.aborted, "smt": eng.smt_samples
    })
    return res


def norm(v):
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {str(k): norm(x) for k, x in v.items()}
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, float):
        return round(v, 9)
    if isinstance(v, (bytes, bytearray)):
        return list(v)
    return v


# ---------------------------------------------------------------- pool

def _worker(conn, job, deadline):
    try:
        import resource
        lim = 6 * 1024 ** 3
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        sys.setrecursionlimit(20000)
        start_monitor()
        gc.set_threshold(200000, 20, 20)
        res = run_job(job, deadline)
    except BaseException as ex:
        res = {"name": job["name"], "status": "inconclusive", "message": "worker: " + repr(ex) + traceback.format_exc()[-800:], "confirmed": [], "unconfirmed": []}
    conn.send(res)
    conn.close()


def run_jobs(jobs, deadline, procs = None, stop_on_violation = True, verbose = False):
    procs = procs or min(8, os.cpu_count() or 1)
    ctx = mp.get_context("fork")
    pending = list(jobs)
    running = []
    results = []
    stop = False
    while pending or running:
        while pending and len(running) < procs and not stop:
            job = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target = _worker, args = (b, job, deadline))
            p.start()
            b.close()
            running.append((p, a, job, time.time()))
        if stop:
            for p, a, job, t in running:
                p.kill()
                p.join()
            break
        conns = [a for _, a, _, _ in running]
        ready = mp.connection.wait(conns, timeout = 1)
        for item in list(running):
            p, a, job, t = item
            if a in ready:
                try:
                    res = a.recv()
                except EOFError:
                    res = {"name": job["name"], "status": "inconclusive", "message": "worker died (memory?)", "confirmed": [], "unconfirmed": []}
                p.join()
                running.remove(item)
                results.append(res)
                if verbose:
                    print("  %-60s %-12s paths %6s queries %7s solver %6.1fs wall %6.1fs %s" % (res["name"], res["status"], res.get("paths"), res.get("queries"), res.get("solver_s", 0), res.get("wall_s", 0), res["message"]), flush = True)
                if res["status"] == "violation" and stop_on_violation:
                    stop = True
            elif time.time() > deadline + 60:
                p.kill()
                p.join()
                running.remove(item)
                results.append({"name": job["name"], "status": "inconclusive", "message": "time budget exhausted", "confirmed": [], "unconfirmed": []})
    return results, stop

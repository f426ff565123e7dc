"""
Path-exhaustive symbolic execution of Python code with z3 (dynamic symbolic execution by re-execution).

A harness h(S) runs the real pyswitch code. Everything it reads from S is a solver variable. Each time the
program branches on a symbolic condition the engine asks z3 which sides are feasible and explores both
(depth first); when the frontier is empty, every path within the harness' stated bounds has been covered,
and every S.check() on every path has been decided by a solver query over ALL values of that path.
"""
import os
import signal
import time
import z3

from fractions import Fraction


class Control(BaseException):
    """Engine control flow (never caught by code under test)."""

class PathDone(Control):
    pass

class Infeasible(Control):
    pass

class Inconclusive(Control):
    pass

class Unsupported(Inconclusive):
    pass

class PathTimeout(Control):
    pass

class ViolationFound(Control):
    pass


ENGINE = None        # current engine (symbolic mode) or None (concrete mode)


_eqs = {}

def eq(expr, v):
    k = (id(expr), v)
    r = _eqs.get(k)
    if r is None:
        if len(_eqs) > 200000:
            _eqs.clear()
        r = _eqs[k] = (expr == v, expr)
    return r[0]


class Entry:
    __slots__ = ("cond", "val", "pending", "pushed", "alt_model", "data")

    def __init__(self, cond = None, val = None, pending = False, pushed = False, alt_model = None, data = None):
        self.cond = cond
        self.val = val
        self.pending = pending
        self.pushed = pushed
        self.alt_model = alt_model
        self.data = data


class Violation:
    def __init__(self, label, inputs, detail = ""):
        self.label = label
        self.inputs = inputs
        self.detail = detail


class Guard:
    """CPU time limit of a path, without the time the solver needs; never strikes inside of the engine"""

    def __init__(self):
        self.depth = 0
        self.due = False
        self.engine = None

    def start(self, seconds, engine):
        self.seconds = seconds
        self.engine = engine
        self.depth = 0
        self.due = False
        self.t0 = time.process_time()
        self.s0 = engine.solver_s
        signal.signal(signal.SIGPROF, self._tick)
        step = max(0.5, min(seconds / 4, 5))
        signal.setitimer(signal.ITIMER_PROF, step, step)

    def stop(self):
        signal.setitimer(signal.ITIMER_PROF, 0)
        self.due = False

    def _tick(self, sig, frame):
        used = time.process_time() - self.t0
        if used - (self.engine.solver_s - self.s0) > self.seconds or used > 10 * self.seconds:
            if self.depth:
                self.due = True
            else:
                raise PathTimeout()

    def __enter__(self):
        self.depth += 1

    def __exit__(self, kind, value, tb):
        self.depth -= 1
        if self.due and kind is None and self.depth == 0:
            self.due = False
            raise PathTimeout()


class Engine:
    def __init__(self, run_path, deadline, path_seconds = 30, max_paths = 2000000, sample_every = 0, max_samples = 6):
        self.run_path = run_path
        self.deadline = deadline
        self.path_seconds = path_seconds
        self.max_paths = max_paths
        self.max_samples = max_samples

        self.solver = z3.Solver()
        self.solver.set("timeout", 60000)
        self.other_model = None
        if os.environ.get("VERIF_SEED"):
            try:
                self.solver.set("random_seed", int(os.environ["VERIF_SEED"]))
            except Exception:
                pass
        self.guard = Guard()
        self.stack = []
        self.pos = 0
        self.model = None
        self.varcache = {}

        # statistics
        self.paths = 0
        self.nodes = 0            # distinct decision points in the execution tree (symbolic states)
        self.edges = 0            # distinct transitions (branch outcomes) taken
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.solver_s = 0.0
        self.asserts = 0          # property assertions decided
        self.aborted = 0
        self.reached = {}
        self.samples = []
        self.fresh_used = False
        self.violations = []
        self.smt_samples = []

    # ---------------------------------------------------------------- solver

    def _check(self, *extra):
        t = time.perf_counter()
        self.other_model = None
        r = self.solver.check(*extra)
        self.solver_s += time.perf_counter() - t
        self.queries += 1
        if r == z3.sat:
            self.sat += 1
            return True
        if r == z3.unsat:
            self.unsat += 1
            return False
        return self._second_opinion(extra, self.solver.reason_unknown())

    def _second_opinion(self, extra, reason):
        """Try again from scratch with other settings, in one shot (no incremental state)"""
        for seed, setting in ((1, None), (7, "smt.arith.solver"), (13, None)):
            o = z3.Solver()
            o.set("timeout", 90000)
            o.set("random_seed", seed)
            if setting:
                o.set(setting, 2)
            for a in self.solver.assertions():
                o.add(a)
            for x in extra:
                o.add(x)
            t = time.perf_counter()
            r = o.check()
            self.solver_s += time.perf_counter() - t
            self.queries += 1
            if r == z3.unsat:
                self.unsat += 1
                return False
            if r == z3.sat:
                self.sat += 1
                self.other_model = o.model()
                return True
            if time.time() > self.deadline:
                break
        raise Inconclusive("solver answered unknown: " + reason)

    def _model(self):
        """Model of the last satisfiable query"""
        m = self.other_model
        if m is not None:
            self.other_model = None
            return m
        return self.solver.model()

    def _holds(self, cond):
        """Truth of cond in the current model."""
        return z3.is_true(self.model.eval(cond, model_completion = True))

    @property
    def live(self):
        return self.pos >= len(self.stack)

    def _ensure_model(self):
        if self.model is None:
            if not self._check():
                raise Infeasible()
            self.model = self._model()

    # ---------------------------------------------------------------- decisions

    def branch(self, cond):
        """Decide a symbolic condition (z3 Bool)."""
        if self.pos < len(self.stack):
            e = self.stack[self.pos]
            self.pos += 1
            if e.cond is None:
                raise Inconclusive("non deterministic re-execution")
            return e.val

        if time.time() > self.deadline:
            raise Inconclusive("time budget exhausted")
        with self.guard:
            return self._branch(cond)

    def _branch(self, cond):
        self._ensure_model()
        cur = self._holds(cond)
        other = z3.Not(cond) if cur else cond
        feasible_other = self._check(other)
        self.nodes += 1
        self.edges += 1
        if feasible_other:
            alt = self._model()
            self.solver.push()
            self.solver.add(cond if cur else z3.Not(cond))
            self.stack.append(Entry(cond, cur, True, True, alt))
        else:
            self.stack.append(Entry(cond, cur, False, False))
        self.pos += 1
        return cur

    def hint(self, f):
        """Remember a nondeterministic engine choice so that re-execution repeats it."""
        if self.pos < len(self.stack):
            e = self.stack[self.pos]
            self.pos += 1
            return e.data
        v = f()
        self.stack.append(Entry(data = v))
        self.pos += 1
        return v

    def concretize(self, expr, limit = 4096):
        """Case split over all feasible values of an integer term."""
        n = 0
        while True:
            def pick():
                self._ensure_model()
                return self.model.eval(expr, model_completion = True).as_long()
            v = self.hint(pick)
            if self.branch(eq(expr, v)):
                return v
            n += 1
            if n > limit:
                raise Unsupported("concretisation of a term with too many values")

    def assume(self, cond):
        if z3.is_true(cond):
            return
        if not self.live:
            return
        with self.guard:
            self._ensure_model()
            ok = self._holds(cond)
            self.solver.add(cond)
            if not ok:
                self.model = None
                self._ensure_model()

    # ---------------------------------------------------------------- assertions

    def check(self, cond, label, detail = None):
        if not self.live:
            return
        with self.guard:
            self._decide(cond, label, detail)

    def _decide(self, cond, label, detail):
        if label not in self.reached:
            # reachability twin: assert(False) here must be violated, i.e. the path condition is satisfiable
            if not self._check():
                raise Infeasible()
            self.model = self._model()
            self.reached[label] = 0
        self.reached[label] += 1
        self.asserts += 1

        if cond is True:
            return
        self._ensure_model()
        if cond is False:
            self._violation(label, self.model, detail)
            raise PathDone()
        if self._holds(cond):
            if not self._check(z3.Not(cond)):
                return
            m = self._model()
        else:
            m = self.model
        self._violation(label, m, detail)
        # continue under the assumption that it held (keeps later checks meaningful)
        self.solver.add(cond)
        self.model = None
        self._ensure_model()

    def _violation(self, label, model, detail):
        d = ""
        if detail is not None:
            try:
                d = str(detail() if callable(detail) else detail)
            except Exception as ex:
                d = "(" + repr(ex) + ")"
        v = Violation(label, self.extract(model), d)
        self.violations.append(v)
        self.on_violation(v)

    def on_violation(self, v):
        pass

    def suspect(self, model):
        """A path has exceeded its time: True if it has been reported as a violation"""
        return False

    def extract(self, model):
        ret = {}
        for name, expr in self.inputs.items():
            val = model.eval(expr, model_completion = True)
            if z3.is_bool(expr):
                ret[name] = z3.is_true(val)
            else:
                ret[name] = val.as_long()
        return ret

    # ---------------------------------------------------------------- main loop

    def explore(self):
        global ENGINE
        complete = False
        retry = False
        try:
            while True:
                self.pos = 0
                self.inputs = {}
                self.memo = {}
                self.keep = []
                self.fresh_count = 0
                self.fresh_used = False
                self.observations = []
                ENGINE = self

                self.guard.start(self.path_seconds * (10 if retry else 1), self)
                try:
                    self.run_path(self)
                    self.paths += 1
                    self._sample()
                except PathDone:
                    self.paths += 1
                except Infeasible:
                    self.aborted += 1
                except PathTimeout:
                    self.guard.stop()
                    self._ensure_model()
                    if retry:
                        self._violation("terminates", self.model, "path did not finish within %ss" % (10 * self.path_seconds))
                    elif not self.suspect(self.model):
                        # Just slow: same path again with more time
                        retry = True
                        continue
                finally:
                    self.guard.stop()
                retry = False

                if self.paths > self.max_paths:
                    raise Inconclusive("path budget exhausted")
                if time.time() > self.deadline:
                    raise Inconclusive("time budget exhausted")
                if not self._backtrack():
                    break
            complete = True
        finally:
            ENGINE = None
        return complete

    def _sample(self):
        if len(self.samples) < self.max_samples and (self.paths <= 2 or (self.paths & (self.paths - 1)) == 0):
            self._ensure_model()
            obs = [(l, value_in_model(v, self.model)) for (l, v) in self.observations]
            self.samples.append({
                "inputs": self.extract(self.model),
                "observations": obs,
                "overapprox": self.fresh_used
            })
            if len(self.smt_samples) < 2:
                self.smt_samples.append(self.solver.to_smt2())

    def _backtrack(self):
        while self.stack:
            e = self.stack.pop()
            if e.pushed:
                self.solver.pop()
            if e.pending:
                cond = e.cond
                val = not e.val
                self.solver.add(cond if val else z3.Not(cond))
                self.stack.append(Entry(cond, val, False, False))
                self.model = e.alt_model
                self.edges += 1
                return True
        return False

    # ---------------------------------------------------------------- variables

    def var(self, name, sort = "int"):
        if name in self.inputs:
            raise Inconclusive("duplicate input " + name)
        v = self.varcache.get((name, sort))
        if v is None:
            v = z3.Int(name) if sort == "int" else z3.Bool(name)
            self.varcache[(name, sort)] = v
        self.inputs[name] = v
        return v

    def fresh(self, prefix = "f", sort = "int"):
        self.fresh_count += 1
        self.fresh_used = True
        n = "%s!%d" % (prefix, self.fresh_count)
        return z3.Int(n) if sort == "int" else z3.Bool(n)


def value_in_model(v, model):
    from . import proxies as p
    return p.concrete_value(v, model)

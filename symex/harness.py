"""
Harness side API (S) for symbolic and concrete (replay) execution, plus the environment stubs.
"""
import z3

from . import engine as E
from . import proxies as P
from . import loader as L


class World:
    """Environment: clock, free memory"""

    def __init__(self):
        self.ms = 0
        self.mem_free = 100000

    def monotonic(self):
        ms = self.ms
        if isinstance(ms, P.SymInt):
            # the clock value lies in the middle of millisecond ms
            return P.SymFloat(ms, 2, 1, 2000)
        return (ms + 0.5) / 1000

    def monotonic_ns(self):
        return self.ms * 1000000 + 500000


class Failed(E.Control):
    def __init__(self, label, detail = ""):
        self.label = label
        self.detail = detail


class S:
    """Base: everything that does not depend on the mode"""

    def _setup(self, mode, roots = None):
        self.world = World()
        self.U = L.Universe(mode, roots)
        self.load("time").WORLD = self.world
        self.load("gc").WORLD = self.world

    def load(self, name):
        return self.U.load(name)

    def obj(self, path):
        """'pyswitch.misc:PeriodCounter'"""
        m, n = path.split(":")
        return getattr(self.load(m), n)

    def advance(self, ms):
        self.world.ms = self.world.ms + ms

    # logic without forking
    def And(self, *a): return P.s_and(*a)
    def Or(self, *a): return P.s_or(*a)
    def Not(self, a): return P.s_not(a)
    def Implies(self, a, b): return P.s_or(P.s_not(a), b)
    def ite(self, c, a, b): return P.s_ite(c, a, b)
    def eq(self, a, b):
        """Deep equality without forking where possible"""
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return P.s_and(*[self.eq(x, y) for x, y in zip(a, b)])
        return a == b

    def text(self, template, *vals):
        """String with numbers: every # of the template is replaced by the next value"""
        out = []
        for i, x in enumerate(template.split("#")):
            if i:
                out.append(P.to_symstr(vals[i - 1]))
            out.append(x)
        return P.SymStr.make(out)

    def numbers(self, text):
        """All (non negative) numbers contained in a string"""
        import re
        parts = text.parts if isinstance(text, P.SymStr) else [text]
        ret = []
        for p in parts:
            if isinstance(p, str):
                ret += [int(x) for x in re.findall(r"\d+", p)]
            elif p.kind == "int":
                ret.append(p.v)
            else:
                ret.append(None)
        return ret

    def choice(self, name, options):
        """Case split: explores every option"""
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        if P.is_sym(i):
            i = i.__index__()
        return options[i]

    def flag(self, name):
        """A boolean input, case split immediately"""
        return bool(self.bool(name))

    def split(self, v):
        """Case split a value into concrete ones"""
        if isinstance(v, P.SymInt):
            return v.__index__()
        if isinstance(v, P.SymBool):
            return bool(v)
        return v

    def unreachable(self, label, detail = None):
        self.check(False, label, detail)

    def raises(self, f, types = Exception):
        """True if f() raises"""
        try:
            f()
        except types:
            return True
        return False


class SymS(S):
    symbolic = True

    def __init__(self, engine, roots = None):
        self.engine = engine
        self._setup("sym", roots)

    def int(self, name, lo, hi):
        v = self.engine.var(name)
        if self.engine.live:
            self.engine.assume(v == lo if lo == hi else z3.And(v >= lo, v <= hi))
        if lo == hi:
            return lo
        return P.SymInt(v, lo, hi)

    def bool(self, name):
        return P.SymBool(self.engine.var(name, "bool"))

    def assume(self, c):
        if not P.is_sym(c):
            if not c:
                raise E.Infeasible()
            return
        self.engine.assume(P.bexpr(c))

    def check(self, c, label, detail = None):
        if not self.engine.live:
            return          # decided when this prefix was explored
        if P.is_sym(c):
            c = P.bexpr(c)
            if z3.is_true(c): c = True
            elif z3.is_false(c): c = False
        else:
            c = bool(c)
        if not isinstance(c, bool):
            c = z3.simplify(c)
            if z3.is_true(c): c = True
            elif z3.is_false(c): c = False
        self.engine.check(c, label, detail)

    def observe(self, label, value):
        self.engine.observations.append((label, value))


class ConcreteS(S):
    symbolic = False

    def __init__(self, inputs, roots = None):
        self.inputs = inputs
        self.observations = []
        self.checks = 0
        self._setup("plain", roots)

    def int(self, name, lo, hi):
        v = self.inputs.get(name, lo)
        if v < lo or v > hi:
            raise E.Infeasible()
        return v

    def bool(self, name):
        return self.inputs.get(name, False)

    def assume(self, c):
        if not c:
            raise E.Infeasible()

    def check(self, c, label, detail = None):
        self.checks += 1
        if not c:
            d = ""
            if detail is not None:
                try:
                    d = str(detail() if callable(detail) else detail)
                except Exception as ex:
                    d = repr(ex)
            raise Failed(label, d)

    def observe(self, label, value):
        self.observations.append((label, plain(value)))


def plain(v):
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (bytes, bytearray)):
        return bytes(v)
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return "<%s>" % type(v).__name__

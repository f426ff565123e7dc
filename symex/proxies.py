"""
Symbolic stand-ins for Python values.

SymInt    mathematical integer (Python ints do not wrap), z3 Int term + static interval
SymBool   z3 Bool term; truth testing forks the path
SymFloat  IEEE double, represented by the exact rational it approximates, (a*base+b)/den over an integer term,
          together with a bound on the accumulated rounding error. Operations which depend on the error are
          over-approximated with fresh variables (sound: the real result is always one of the modelled ones).
SymStr    string with symbolic integers / characters embedded
SymBytes  byte string / list of fixed length with symbolic elements
"""
import z3
import math
import re
import struct
from fractions import Fraction

from . import engine as E
from .engine import Unsupported

U = Fraction(1, 2 ** 53)


def eng():
    if E.ENGINE is None:
        raise RuntimeError("symbolic value used outside of symbolic execution")
    return E.ENGINE


def is_sym(v):
    return isinstance(v, (SymInt, SymBool, SymFloat, SymStr, SymBytes))


# ------------------------------------------------------------------ term construction (memoised over all paths)

_memo = {}

_OPS = {
    "+": lambda a, b: a + b,
    "-": lambda a, b: a - b,
    "*": lambda a, b: a * b,
    "/": lambda a, b: a / b,
    "%": lambda a, b: a % b,
    "neg": lambda a, b: -a,
    "abs": lambda a, b: z3.If(a < 0, -a, a),
    "b2i": lambda a, b: z3.If(a, _const(1), _const(0)),
    "<": lambda a, b: mkbool(a < b),
    "<=": lambda a, b: mkbool(a <= b),
    "==": lambda a, b: mkbool(a == b),
    "nz": lambda a, b: mkbool(a != 0),
    "z": lambda a, b: mkbool(a == 0),
    "not": lambda a, b: mkbool(z3.Not(a)),
    "and": lambda a, b: SymBool(z3.And(a, b)),
    "or": lambda a, b: SymBool(z3.Or(a, b)),
}

def zop(op, a, b = None):
    """Build a term. Terms are python objects shared between all paths, so identical operations on identical operands
    are answered from the memo (the operands are kept alive by it, so ids are never reused)."""
    k = (op, id(a), id(b))
    r = _memo.get(k)
    if r is None:
        if len(_memo) > 400000:
            _memo.clear()
        r = (_OPS[op](a, b), a, b)
        _memo[k] = r
    return r[0]

_consts = {}

def _const(v):
    r = _consts.get(v)
    if r is None:
        if len(_consts) > 100000:
            _consts.clear()
        r = _consts[v] = z3.IntVal(v)
    return r


# ------------------------------------------------------------------ booleans

class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().branch(self.e)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return zop("==", self.e, o.e)
        if o is True:
            return self
        if o is False:
            return zop("not", self.e)
        if isinstance(o, (int, SymInt)):
            return self._int() == o
        return False

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def _int(self):
        return SymInt(zop("b2i", self.e), 0, 1)

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return s_and(self, o)
        return self._int() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return s_or(self, o)
        return self._int() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return s_not(self == o)
        return self._int() ^ o
    __rxor__ = __xor__

    def __add__(self, o): return self._int() + o
    def __radd__(self, o): return o + self._int()
    def __sub__(self, o): return self._int() - o
    def __rsub__(self, o): return o - self._int()
    def __mul__(self, o): return self._int() * o
    def __rmul__(self, o): return o * self._int()
    def __lt__(self, o): return self._int() < o
    def __le__(self, o): return self._int() <= o
    def __gt__(self, o): return self._int() > o
    def __ge__(self, o): return self._int() >= o
    def __lshift__(self, o): return self._int() << o
    def __repr__(self): return "<SymBool %s>" % self.e


def mkbool(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def bexpr(v):
    """z3 Bool of any truth-testable value (no forking)."""
    if isinstance(v, SymBool):
        return v.e
    if isinstance(v, SymInt):
        return bexpr(zop("nz", v.e))
    if isinstance(v, SymFloat):
        return bexpr(v != 0)
    return z3.BoolVal(bool(v))


def s_not(v):
    if isinstance(v, SymBool):
        return zop("not", v.e)
    if isinstance(v, SymInt):
        return zop("z", v.e)
    return not v


def s_and(*a):
    es = []
    for v in a:
        if is_sym(v):
            es.append(bexpr(v))
        elif not v:
            return False
    if not es:
        return True
    r = es[0]
    for e in es[1:]:
        r = zop("and", r, e).e
    return SymBool(r)


def s_or(*a):
    es = []
    for v in a:
        if is_sym(v):
            es.append(bexpr(v))
        elif v:
            return True
    if not es:
        return False
    r = es[0]
    for e in es[1:]:
        r = zop("or", r, e).e
    return SymBool(r)


# ------------------------------------------------------------------ integers

def _lo(v):
    return v.lo if isinstance(v, SymInt) else int(v)

def _hi(v):
    return v.hi if isinstance(v, SymInt) else int(v)

def iexpr(v):
    if isinstance(v, SymInt):
        return v.e
    if isinstance(v, SymBool):
        return v._int().e
    return _const(int(v))

def mkint(e, lo = None, hi = None):
    if lo is not None and lo == hi:
        return lo
    return SymInt(e, lo, hi)


class SymInt:
    __slots__ = ("e", "lo", "hi")

    def __init__(self, e, lo = None, hi = None):
        self.e = e
        self.lo = lo
        self.hi = hi

    # -- comparison
    def _cmp(self, o, op):
        if isinstance(o, SymBool):
            o = o._int()
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, (int, SymInt)):
            l1, h1, l2, h2 = self.lo, self.hi, _lo(o), _hi(o)
            a, b = self.e, iexpr(o)
            if op == "<":
                if h1 is not None and l2 is not None and h1 < l2: return True
                if l1 is not None and h2 is not None and l1 >= h2: return False
                return zop("<", a, b)
            if op == "<=":
                if h1 is not None and l2 is not None and h1 <= l2: return True
                if l1 is not None and h2 is not None and l1 > h2: return False
                return zop("<=", a, b)
            if op == "==":
                if h1 is not None and l2 is not None and h1 < l2: return False
                if l1 is not None and h2 is not None and l1 > h2: return False
                if isinstance(o, SymInt) and a.eq(b): return True
                return zop("==", a, b)
        if isinstance(o, (float, SymFloat)):
            return getattr(SymFloat.of(self), {"<": "__lt__", "<=": "__le__", "==": "__eq__"}[op])(o)
        return NotImplemented

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        r = self._cmp(o, "<=")
        return r if r is NotImplemented else s_not(r)

    def __ge__(self, o):
        r = self._cmp(o, "<")
        return r if r is NotImplemented else s_not(r)

    def __bool__(self):
        if self.lo is not None and self.lo > 0:
            return True
        if self.hi is not None and self.hi < 0:
            return True
        return bool(zop("nz", self.e))

    def __hash__(self):
        return hash(self.__index__())

    def __index__(self):
        return eng().concretize(self.e)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, SymBool): o = o._int()
        if isinstance(o, (int, SymInt)):
            if not isinstance(o, SymInt) and o == 0: return self
            return mkint(zop("+", self.e, iexpr(o)), _add(self.lo, _lo(o)), _add(self.hi, _hi(o)))
        if isinstance(o, (float, SymFloat)):
            return SymFloat.of(self) + o
        return NotImplemented

    def __radd__(self, o):
        return self.__add__(o)

    def __neg__(self):
        return mkint(zop("neg", self.e), None if self.hi is None else -self.hi, None if self.lo is None else -self.lo)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, SymBool): o = o._int()
        if isinstance(o, (int, SymInt)):
            if not isinstance(o, SymInt) and o == 0: return self
            return mkint(zop("-", self.e, iexpr(o)), _sub(self.lo, _hi(o)), _sub(self.hi, _lo(o)))
        if isinstance(o, (float, SymFloat)):
            return SymFloat.of(self) - o
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, (int, bool)):
            return mkint(zop("-", _const(int(o)), self.e), _sub(int(o), self.hi), _sub(int(o), self.lo))
        if isinstance(o, float):
            return SymFloat.of(o) - self
        return NotImplemented

    def __mul__(self, o):
        if isinstance(o, SymBool): o = o._int()
        if isinstance(o, (int, SymInt)):
            lo, hi = _mulb(self.lo, self.hi, _lo(o), _hi(o))
            return mkint(zop("*", self.e, iexpr(o)), lo, hi)
        if isinstance(o, (float, SymFloat)):
            return SymFloat.of(self) * o
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (int, float, SymInt, SymFloat)):
            return SymFloat.of(self) / o
        return NotImplemented

    def __rtruediv__(self, o):
        return SymFloat.of(o) / self

    def __pow__(self, o, m = None):
        if type(o) is int and 0 <= o <= 4:
            ret = 1
            for _ in range(o):
                ret = self * ret
            return ret if m is None else ret % m
        return pow(self.__index__(), o.__index__() if isinstance(o, SymInt) else o, m)

    def __rpow__(self, o):
        return pow(o, self.__index__())

    def bit_length(self):
        return self.__index__().bit_length()

    def to_bytes(self, length = 1, byteorder = "big", signed = False):
        if signed:
            return self.__index__().to_bytes(length, byteorder, signed = True)
        if not bool(s_and(self >= 0, self < 256 ** length)):
            raise OverflowError("int too big to convert")
        items = [(self >> (8 * i)) & 255 for i in range(length)]
        return SymBytes.make(items if byteorder == "little" else reversed(items))

    def __floordiv__(self, o):
        if isinstance(o, (int, SymInt)):
            return int_divmod(self, o)[0]
        if isinstance(o, float) and o != 0 and o == int(o) and (self.lo is not None and self.hi is not None and max(abs(self.lo), abs(self.hi)) < 2 ** 53):
            return SymFloat.of(int_divmod(self, int(o))[0])
        return NotImplemented

    def __rfloordiv__(self, o):
        return int_divmod(o, self)[0]

    def __mod__(self, o):
        if isinstance(o, (int, SymInt)):
            return int_divmod(self, o)[1]
        if isinstance(o, float):
            return SymFloat.of(self) % o
        return NotImplemented

    def __rmod__(self, o):
        if isinstance(o, (int, SymInt)):
            return int_divmod(o, self)[1]
        return NotImplemented

    def __divmod__(self, o):
        return int_divmod(self, o)

    def __abs__(self):
        if self.lo is not None and self.lo >= 0: return self
        if self.hi is not None and self.hi <= 0: return -self
        m = None
        if self.lo is not None and self.hi is not None:
            m = max(abs(self.lo), abs(self.hi))
        return mkint(zop("abs", self.e), 0, m)

    def __round__(self, n = None):
        return self

    def __floor__(self):
        return self

    __ceil__ = __floor__
    __trunc__ = __floor__

    # -- bit operations (symbolic by constant)
    def __lshift__(self, o):
        if isinstance(o, SymInt): o = o.__index__()
        return self * (1 << o)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        if isinstance(o, SymInt): o = o.__index__()
        return self // (1 << o)

    def __and__(self, o):
        if isinstance(o, bool): o = int(o)
        if isinstance(o, int):
            if o == 0: return 0
            if o > 0:
                # sum of contiguous bit groups
                ret = 0
                bit = 0
                m = o
                while m:
                    if m & 1:
                        n = 0
                        while (m >> n) & 1: n += 1
                        g = (self // (1 << bit)) % (1 << n)
                        ret = ret + g * (1 << bit)
                        m >>= n
                        bit += n
                    else:
                        m >>= 1
                        bit += 1
                return ret
            return self - (self & ~o)
        if isinstance(o, SymInt):
            return bitop_bits(self, o, lambda a, b: z3.And(a, b))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (int, SymInt, SymBool)):
            if isinstance(o, SymBool): o = o._int()
            return self + o - (self & o)
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (int, SymInt)):
            return self + o - 2 * (self & o)
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __repr__(self): return "<SymInt %s>" % self.e
    def __format__(self, spec): raise Unsupported("format of symbolic int")


def bitop_bits(a, b, f):
    for v in (a, b):
        if v.lo is None or v.hi is None or v.lo < 0 or v.hi >= 2 ** 20:
            raise Unsupported("bit operation on wide symbolic ints")
    n = max(a.hi.bit_length(), b.hi.bit_length())
    e = z3.IntVal(0)
    for i in range(n):
        x = (a.e / (1 << i)) % 2 == 1
        y = (b.e / (1 << i)) % 2 == 1
        e = e + z3.If(f(x, y), z3.IntVal(1 << i), z3.IntVal(0))
    return SymInt(e, 0, (1 << n) - 1)


def _add(a, b):
    return None if a is None or b is None else a + b

def _sub(a, b):
    return None if a is None or b is None else a - b

def _mulb(l1, h1, l2, h2):
    if None in (l1, h1, l2, h2):
        if l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0:
            return l1 * l2, None
        return None, None
    c = (l1 * l2, l1 * h2, h1 * l2, h1 * h2)
    return min(c), max(c)


def int_divmod(a, b):
    """Python floor division and modulo"""
    if isinstance(b, SymInt):
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if (b.lo is not None and b.lo > 0) or bool(b > 0):
            q = SymInt(zop("/", iexpr(a), b.e))
            r = SymInt(zop("%", iexpr(a), b.e), 0, None if b.hi is None else b.hi - 1)
            if _lo(a) is not None and _lo(a) >= 0: q.lo = 0
            if q.lo == 0 and _hi(a) is not None: q.hi = _hi(a)
            return q, r
        q, r = int_divmod(-a, -b)
        return q, -r
    b = int(b)
    if b == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if not isinstance(a, SymInt):
        return divmod(a, b)
    if b < 0:
        q, r = int_divmod(-a, -b)
        return q, -r
    if b == 1:
        return a, 0
    lo = None if a.lo is None else a.lo // b
    hi = None if a.hi is None else a.hi // b
    if lo is not None and lo == hi:
        return lo, a - lo * b
    rlo, rhi = 0, b - 1
    return mkint(zop("/", a.e, _const(b)), lo, hi), mkint(zop("%", a.e, _const(b)), rlo, rhi)


def s_ite(c, a, b):
    """Value selection without forking (harness side)"""
    if not is_sym(c):
        return a if c else b
    ce = bexpr(c)
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return mkbool(z3.If(ce, bexpr(a), bexpr(b)))
    if isinstance(a, (int, SymInt, SymBool)) and isinstance(b, (int, SymInt, SymBool)):
        la, lb, ha, hb = _lo2(a), _lo2(b), _hi2(a), _hi2(b)
        lo = None if la is None or lb is None else min(la, lb)
        hi = None if ha is None or hb is None else max(ha, hb)
        return mkint(z3.If(ce, iexpr(a), iexpr(b)), lo, hi)
    return a if bool(c) else b

def _lo2(v):
    return 0 if isinstance(v, (SymBool, bool)) else _lo(v)

def _hi2(v):
    return 1 if isinstance(v, (SymBool, bool)) else _hi(v)


# ------------------------------------------------------------------ floats

class SymFloat:
    """value v with |v - (base*a + b)/den| <= err. Where 'single' is set, v is the correctly rounded double of that rational."""
    __slots__ = ("base", "a", "b", "den", "err", "single")

    def __init__(self, base, a, b, den, err = 0, single = True):
        g = math.gcd(math.gcd(a, b), den)
        if g > 1:
            a //= g; b //= g; den //= g
        self.base = base
        self.a = a
        self.b = b
        self.den = den
        self.err = err
        self.single = single

    @staticmethod
    def of(v):
        if isinstance(v, SymFloat):
            return v
        if isinstance(v, SymBool):
            v = v._int()
        if isinstance(v, SymInt):
            return SymFloat(v, 1, 0, 1)
        f = Fraction(v)
        return SymFloat(None, 0, f.numerator, f.denominator)

    # ---- helpers
    def bounds(self):
        """Interval of the exact rational"""
        if self.base is None:
            f = Fraction(self.b, self.den)
            return f, f
        l, h = self.base.lo, self.base.hi
        if l is None or h is None:
            return None, None
        x = Fraction(l * self.a + self.b, self.den)
        y = Fraction(h * self.a + self.b, self.den)
        return (x, y) if x <= y else (y, x)

    def mag(self):
        l, h = self.bounds()
        if l is None:
            raise Unsupported("float operation on an unbounded term")
        return max(abs(l), abs(h)) + self.err

    def num(self):
        """numerator as SymInt / int"""
        if self.base is None:
            return self.b
        return self.base * self.a + self.b

    def key(self):
        return (None if self.base is None else self.base.e.get_id(), self.a, self.b, self.den, self.err, self.single)

    def _rounded(self, exact_inputs):
        """Apply the rounding of one IEEE operation to this exact result"""
        m = self.mag()
        # exactly representable?
        if self.err == 0 and (self.den & (self.den - 1)) == 0 and m * self.den < 2 ** 53:
            return self
        self.single = exact_inputs and self.err == 0
        self.err = self.err + m * U
        return self

    def exact(self):
        return self.err == 0

    # ---- arithmetic
    def __add__(self, o):
        if not isinstance(o, (int, float, SymInt, SymBool, SymFloat)):
            return NotImplemented
        o = SymFloat.of(o)
        d = self.den * o.den // math.gcd(self.den, o.den)
        m1 = d // self.den
        m2 = d // o.den
        if self.base is None:
            base, a = o.base, o.a * m2
        elif o.base is None:
            base, a = self.base, self.a * m1
        elif self.base.e.eq(o.base.e):
            base, a = self.base, self.a * m1 + o.a * m2
        else:
            base, a = self.base * (self.a * m1) + o.base * (o.a * m2), 1
        if not isinstance(base, SymInt) and base is not None:
            return SymFloat(None, 0, base * a + self.b * m1 + o.b * m2, d, self.err + o.err)._rounded(self.exact() and o.exact())
        return SymFloat(base, a, self.b * m1 + o.b * m2, d, self.err + o.err)._rounded(self.exact() and o.exact())

    __radd__ = __add__

    def __neg__(self):
        return SymFloat(self.base, -self.a, -self.b, self.den, self.err, self.single)

    def __sub__(self, o):
        if not isinstance(o, (int, float, SymInt, SymBool, SymFloat)):
            return NotImplemented
        return self + (-SymFloat.of(o))

    def __rsub__(self, o):
        return SymFloat.of(o) + (-self)

    def __mul__(self, o):
        if not isinstance(o, (int, float, SymInt, SymBool, SymFloat)):
            return NotImplemented
        o = SymFloat.of(o)
        err = 0
        if self.err or o.err:
            err = self.err * o.mag() + o.err * self.mag()
        x = self.exact() and o.exact()
        if o.base is None:
            return SymFloat(self.base, self.a * o.b, self.b * o.b, self.den * o.den, err)._rounded(x)
        if self.base is None:
            return SymFloat(o.base, o.a * self.b, o.b * self.b, self.den * o.den, err)._rounded(x)
        p = self.num() * o.num()
        if not isinstance(p, SymInt):
            return SymFloat(None, 0, p, self.den * o.den, err)._rounded(x)
        return SymFloat(p, 1, 0, self.den * o.den, err)._rounded(x)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not isinstance(o, (int, float, SymInt, SymBool, SymFloat)):
            return NotImplemented
        o = SymFloat.of(o)
        if bool(o == 0):
            raise ZeroDivisionError("division by zero")
        if o.base is None:
            if o.err:
                raise Unsupported("division by inexact constant")
            n, d = o.den, o.b
            if d < 0:
                n, d = -n, -d
            return SymFloat(self.base, self.a * n, self.b * n, self.den * d, self.err * Fraction(n, d).__abs__())._rounded(self.exact())
        # symbolic divisor: case split over its values (bounded)
        if o.err:
            raise Unsupported("division by inexact symbolic float")
        n = o.num()
        v = n.__index__() if isinstance(n, SymInt) else n
        return self / float(Fraction(v, o.den))

    def __rtruediv__(self, o):
        return SymFloat.of(o) / self

    def __floordiv__(self, o):
        raise Unsupported("float floor division")

    def __mod__(self, o):
        if isinstance(o, (int, float)) and self.err == 0:
            f = Fraction(o)
            # fmod is exact
            d = self.den * f.denominator // math.gcd(self.den, f.denominator)
            n = self.num() * (d // self.den)
            m = f.numerator * (d // f.denominator)
            r = int_divmod(n, m)[1]
            if isinstance(r, SymInt):
                return SymFloat(r, 1, 0, d)
            return SymFloat(None, 0, r, d)
        raise Unsupported("float modulo")

    def __abs__(self):
        if bool(self < 0):
            return -self
        return self

    # ---- comparison
    def _cmp(self, o, op):
        if isinstance(o, float) and (o != o or o in (float("inf"), float("-inf"))):
            if op == "==": return False
            return o == float("inf")
        o = SymFloat.of(o)
        d = self.den * o.den // math.gcd(self.den, o.den)
        l = self.num() * (d // self.den)
        r = o.num() * (d // o.den)
        err = self.err + o.err

        if err == 0:
            return _icmp(l, r, op)

        if self.key() == o.key():
            return op != "<"

        # one correctly rounded value against an exactly representable one, grid finer than the error
        if ((self.single and o.err == 0) or (o.single and self.err == 0)) and err < Fraction(1, d):
            return _icmp(l, r, op)

        # over-approximation: undecided within the error band
        k = ("cmp", op, self.key(), o.key())
        en = eng()
        if k in en.memo:
            return en.memo[k]
        E2 = err * d
        band_n, band_d = E2.numerator, E2.denominator
        diff = (l - r)                      # integer
        dl = diff * band_d
        if op == "==":
            if self.lohi_disjoint(o, err):
                return False
            near = s_and(dl <= band_n, dl >= -band_n)
            f = en.fresh("feq", "bool")
            res = s_and(near, SymBool(f))
        else:
            sure = dl < -band_n
            sure_not = dl > band_n
            f = en.fresh("fcmp", "bool")
            res = s_or(sure, s_and(s_not(sure_not), SymBool(f)))
        en.memo[k] = res
        en.keep.append((self, o))
        return res

    def lohi_disjoint(self, o, err):
        l1, h1 = self.bounds()
        l2, h2 = o.bounds()
        if None in (l1, h1, l2, h2):
            return False
        return l1 > h2 + err or l2 > h1 + err

    def __eq__(self, o):
        if not isinstance(o, (int, float, SymInt, SymBool, SymFloat)):
            return False
        return self._cmp(o, "==")

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return s_not(self._cmp(o, "<="))

    def __ge__(self, o):
        return s_not(self._cmp(o, "<"))

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        raise Unsupported("hash of symbolic float")

    def __float__(self):
        raise Unsupported("float() of symbolic float by native code")

    # ---- to integer
    def floor(self):
        n = self.num()
        if not isinstance(n, SymInt):
            v = Fraction(n, self.den)
            if self.err == 0 or (self.single and (v.denominator == 1 or self.err < Fraction(1, v.denominator))):
                return math.floor(v)
        # affine peephole
        if self.err == 0 or (self.single and self.err < Fraction(1, self.den)):
            if self.base is not None and self.a % self.den == 0:
                return self.base * (self.a // self.den) + self.b // self.den
            return int_divmod(n, self.den)[0]
        # within the error band of an integer both neighbours are possible
        k = ("floor", self.key())
        en = eng()
        if k in en.memo:
            return en.memo[k]
        f = SymInt(en.fresh("floor"))
        l, h = self.bounds()
        # rounding is monotone and integers are representable: a correctly rounded value never falls below the integer
        # below the exact value
        down = 0 if self.single else self.err
        f.lo = math.floor(l - down)
        f.hi = math.floor(h + self.err)
        # f <= v < f+1  with |v - n/den| <= err
        p, q = self.err.numerator, self.err.denominator
        # f*den*q <= n*q + p*den    and   n*q - p*den < (f+1)*den*q
        en.assume(bexpr(f * (self.den * q) <= n * q + p * self.den))
        en.assume(bexpr(n * q - (0 if self.single else p) * self.den < (f + 1) * (self.den * q)))
        if f.lo == f.hi:
            f = f.lo
        en.memo[k] = f
        en.keep.append(self)
        return f

    def __floor__(self):
        return self.floor()

    def __ceil__(self):
        return -((-self).floor())

    def __trunc__(self):
        l, h = self.bounds()
        if l is not None and (l - self.err >= 0 or self.single and l >= 0):
            return self.floor()
        if bool(self >= 0):
            return self.floor()
        return -((-self).floor())

    trunc = __trunc__

    def __round__(self, n = None):
        if n is not None:
            if n != 1:
                raise Unsupported("round to digits of symbolic float")
            # tenths; the scaling is exact here (Python rounds the decimal representation of the double)
            if not isinstance(self.num(), SymInt) and self.err:
                raise Unsupported("rounding of an inexact float")
            k = SymFloat(self.base, self.a * 10, self.b * 10, self.den, self.err * 10, False).__round__()
            if not is_sym(k):
                # Symbolic value with constant rounding
                r = SymFloat(None, 0, k, 10)
            else:
                r = SymFloat(k, 1, 0, 10)
            r = r._rounded(True)
            ret = SymTenths(r.base, r.a, r.b, r.den, r.err, r.single)
            ret.tenths = k
            ret.orig = self
            return ret
        n = self.num()
        if self.err == 0 or (self.single and self.err < Fraction(1, 2 * self.den)):
            # round half even of n/den
            q, r = int_divmod(n, self.den)
            if not is_sym(r):
                f = Fraction(r, self.den)
                if f < Fraction(1, 2): return q
                if f > Fraction(1, 2): return q + 1
                return q + q % 2
            odd = int_divmod(q, 2)[1]
            up = s_or(r * 2 > self.den, s_and(r * 2 == self.den, odd == 1))
            ret = q + s_ite(up, 1, 0)
            return ret
        k = ("round", self.key())
        en = eng()
        if k in en.memo:
            return en.memo[k]
        f = SymInt(en.fresh("round"))
        l, h = self.bounds()
        f.lo = math.floor(l - self.err)
        f.hi = math.ceil(h + self.err)
        p, q = self.err.numerator, self.err.denominator
        # |f - n/den| <= 1/2 + err
        en.assume(bexpr((f * self.den - n) * (2 * q) <= self.den * q + 2 * p * self.den))
        en.assume(bexpr((n - f * self.den) * (2 * q) <= self.den * q + 2 * p * self.den))
        en.memo[k] = f
        en.keep.append(self)
        return f

    def __repr__(self): return "<SymFloat (%s*%s+%s)/%s>" % (None if self.base is None else self.base.e, self.a, self.b, self.den)
    def __format__(self, spec): raise Unsupported("format of symbolic float")


class SymTenths(SymFloat):
    """Float rounded to one decimal"""
    __slots__ = ("tenths", "orig")

    def text(self):
        k = self.tenths
        if bool(k < 0):
            sign = "-"
            k = -k
        else:
            # a correctly rounded value has the sign of the exact one
            sign = "-" if bool(k == 0) and bool(self.orig.num() < 0 if self.orig.single else self.orig < 0) else ""
        return SymStr.make([sign, to_symstr(k // 10), ".", to_symstr(k % 10)])


def _icmp(l, r, op):
    if op == "<": return l < r
    if op == "<=": return l <= r
    return l == r


# ------------------------------------------------------------------ strings

class Part:
    """Embedded symbolic value: kind 'int' (decimal), 'chr' (one character)"""
    __slots__ = ("kind", "v", "spec")

    def __init__(self, kind, v, spec = ""):
        self.kind = kind
        self.v = v
        self.spec = spec

    def concrete(self):
        if self.kind == "int":
            return format(self.v.__index__(), self.spec)
        if self.kind == "chr":
            return chr(self.v.__index__())
        raise Unsupported("concretise string part")


class SymStr:
    def __init__(self, parts):
        ps = []
        for p in parts:
            if isinstance(p, SymStr):
                for q in p.parts:
                    _append(ps, q)
            else:
                _append(ps, p)
        self.parts = ps

    @staticmethod
    def make(parts):
        s = SymStr(parts)
        if not s.parts:
            return ""
        if len(s.parts) == 1 and isinstance(s.parts[0], str):
            return s.parts[0]
        return s

    def concrete(self):
        return "".join(p if isinstance(p, str) else p.concrete() for p in self.parts)

    def __add__(self, o):
        if isinstance(o, (str, SymStr)):
            return SymStr.make([self, o])
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, SymStr)):
            return SymStr.make([o, self])
        return NotImplemented

    def all_chr(self):
        return all(isinstance(p, str) or p.kind == "chr" for p in self.parts)

    def chars(self):
        ret = []
        for p in self.parts:
            if isinstance(p, str):
                ret += list(p)
            else:
                ret.append(p)
        return ret

    def __len__(self):
        if self.all_chr():
            return len(self.chars())
        return len(self.concrete())

    def __bool__(self):
        return len(self.parts) > 0

    def __getitem__(self, i):
        if self.all_chr():
            c = self.chars()[i]
            return SymStr.make(c if isinstance(i, slice) else [c])
        return self.concrete()[i]

    def __iter__(self):
        if self.all_chr():
            for c in self.chars():
                yield SymStr.make([c])
        else:
            yield from self.concrete()

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        op = [o] if isinstance(o, str) and o else ([] if isinstance(o, str) else o.parts)
        # same shape?
        if len(op) == len(self.parts):
            conds = []
            ok = True
            for i, (x, y) in enumerate(zip(self.parts, op)):
                if isinstance(x, str) or isinstance(y, str):
                    if not (isinstance(x, str) and isinstance(y, str) and x == y):
                        ok = False
                        break
                elif x.kind == y.kind and x.spec == y.spec:
                    if x.kind == "opaque" and not (x.v is y.v):
                        ok = False
                        break
                    if x.kind == "int":
                        # unique decoding: next character cannot continue a number
                        nxt = self.parts[i + 1] if i + 1 < len(self.parts) else ""
                        if not isinstance(nxt, str) or (nxt and nxt[0].isdigit()):
                            ok = False
                            break
                    conds.append(True if x.kind == "opaque" else x.v == y.v)
                else:
                    ok = False
                    break
            if ok:
                return s_and(*conds)
        if self.all_chr() and (isinstance(o, str) or o.all_chr()):
            c1 = self.chars()
            c2 = list(o) if isinstance(o, str) else o.chars()
            if len(c1) != len(c2):
                return False
            conds = []
            for x, y in zip(c1, c2):
                a = ord(x) if isinstance(x, str) else x.v
                b = ord(y) if isinstance(y, str) else y.v
                conds.append(a == b)
            return s_and(*conds)
        # quick rejections: literal prefix / suffix mismatch
        if _mismatch(self.parts, op):
            return False
        for a, b in ((self.parts, op), (op, self.parts)):
            if len(b) == 1 and isinstance(b[0], str):
                r = _match_literal(a, b[0])
                if r is not None:
                    return r
        return self.concrete() == (o if isinstance(o, str) else o.concrete())

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __hash__(self):
        return hash(self.concrete())

    def __lt__(self, o): return self.concrete() < (o.concrete() if isinstance(o, SymStr) else o)
    def __repr__(self): return "<SymStr %r>" % [p if isinstance(p, str) else "{%s}" % p.kind for p in self.parts]
    def __str__(self): return self.concrete()

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError(name)
        return getattr(self.concrete(), name)


def _append(ps, p):
    if isinstance(p, str):
        if not p:
            return
        if ps and isinstance(ps[-1], str):
            ps[-1] = ps[-1] + p
        else:
            ps.append(p)
    else:
        ps.append(p)


def _mismatch(a, b):
    if not a or not b:
        return bool(a) != bool(b) and all(isinstance(p, str) or True for p in (a or b))
    for x, y in ((a[0], b[0]), (a[-1], b[-1])):
        pass
    x, y = a[0], b[0]
    if isinstance(x, str) and isinstance(y, str):
        n = min(len(x), len(y))
        if x[:n] != y[:n]:
            return True
    x, y = a[-1], b[-1]
    if isinstance(x, str) and isinstance(y, str):
        n = min(len(x), len(y))
        if n and x[-n:] != y[-n:]:
            return True
    return False


def _match_literal(parts, text):
    """Equality of a string with decimal numbers and a literal; None if the split is not unique"""
    if any(not isinstance(p, str) and (p.kind != "int" or p.spec) for p in parts):
        return None
    rx = ""
    for i, p in enumerate(parts):
        if isinstance(p, str):
            rx += re.escape(p)
        else:
            rx += r"(0|-?[1-9][0-9]*)"
    m = re.fullmatch(rx, text, re.S)
    if not m:
        return False
    for i, p in enumerate(parts):
        if isinstance(p, str):
            continue
        before = parts[i - 1] if i else ""
        after = parts[i + 1] if i + 1 < len(parts) else ""
        if not isinstance(before, str) or not isinstance(after, str) or (after and after[0] in "0123456789"):
            return None
    conds = []
    k = 0
    for p in parts:
        if not isinstance(p, str):
            k += 1
            conds.append(p.v == int(m.group(k)))
    return s_and(*conds)


def to_symstr(v, conv = "s", spec = ""):
    """str()/repr()/format() of any value"""
    if isinstance(v, SymBool):
        v = bool(v)
    if isinstance(v, SymInt):
        if spec and spec != "d":
            return format(v.__index__(), spec)
        return SymStr.make([Part("int", v)])
    if isinstance(v, SymTenths) and not spec:
        return v.text()
    if isinstance(v, SymFloat):
        n = v.num()
        if isinstance(n, SymInt):
            if v.err:
                raise Unsupported("formatting of an inexact symbolic float")
            x = Fraction(n.__index__(), v.den)
        else:
            x = Fraction(n, v.den)
        x = float(x)
        return format(x, spec) if spec else (repr(x) if conv == "r" else str(x))
    if isinstance(v, SymStr):
        if spec:
            return format(v.concrete(), spec)
        if conv == "r":
            return repr(v.concrete())
        return v
    if isinstance(v, (list, tuple)) and any(is_sym(x) for x in v):
        parts = []
        for i, x in enumerate(v):
            if i: parts.append(", ")
            parts.append(to_symstr(x, "r"))
        if isinstance(v, tuple):
            return SymStr.make(["("] + parts + [",)" if len(v) == 1 else ")"])
        return SymStr.make(["["] + parts + ["]"])
    if spec:
        return format(v, spec)
    return repr(v) if conv == "r" else str(v)


# ------------------------------------------------------------------ byte strings

class SymBytes:
    def __init__(self, items):
        self.items = tuple(items)

    @staticmethod
    def make(items, cls = bytes):
        items = list(items)
        for v in items:
            if isinstance(v, SymInt):
                if not bool(s_and(v >= 0, v <= 255)):
                    raise ValueError("bytes must be in range(0, 256)")
            elif isinstance(v, (SymFloat, SymStr)):
                raise TypeError("cannot be interpreted as an integer")
        if any(is_sym(v) for v in items):
            return SymBytes(items)
        return cls(items)

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def __getitem__(self, i):
        if isinstance(i, slice):
            r = self.items[i]
            if any(is_sym(v) for v in r):
                return SymBytes(r)
            return bytes(r)
        return self.items[i]

    def __add__(self, o):
        if isinstance(o, (bytes, bytearray, SymBytes)):
            return SymBytes(self.items + tuple(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray)):
            return SymBytes(tuple(o) + self.items)
        return NotImplemented

    def decode(self, encoding = "utf-8", errors = "strict"):
        e = encoding.lower().replace("_", "-")
        ret = ""
        for v in self.items:
            if e not in ("latin-1", "latin1", "iso-8859-1") and not bool(v < 128):
                return bytes(int(x) for x in self.items).decode(encoding, errors)
            ret = ret + (SymStr([Part("chr", v)]) if is_sym(v) else chr(v))
        return ret

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray, SymBytes)):
            return False
        if len(o) != len(self.items):
            return False
        return s_and(*[x == y for x, y in zip(self.items, o)])

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __contains__(self, v):
        return bool(s_or(*[x == v for x in self.items]))

    def __hash__(self):
        raise Unsupported("hash of symbolic bytes")

    def __repr__(self):
        return "<SymBytes %r>" % (self.items,)


# ------------------------------------------------------------------ model evaluation

def concrete_value(v, model):
    if isinstance(v, SymBool):
        return z3.is_true(model.eval(v.e, model_completion = True))
    if isinstance(v, SymInt):
        return model.eval(v.e, model_completion = True).as_long()
    if isinstance(v, SymFloat):
        n = concrete_value(v.num(), model) if v.base is not None else v.b
        return float(Fraction(n, v.den))
    if isinstance(v, SymStr):
        ret = ""
        for p in v.parts:
            if isinstance(p, str): ret += p
            elif p.kind == "int": ret += format(concrete_value(p.v, model), p.spec)
            elif p.kind == "chr": ret += chr(concrete_value(p.v, model))
            else: ret += "?"
        return ret
    if isinstance(v, SymBytes):
        return bytes(concrete_value(x, model) for x in v.items)
    if isinstance(v, (list, tuple)):
        return [concrete_value(x, model) for x in v]
    if isinstance(v, dict):
        return {k: concrete_value(x, model) for k, x in v.items()}
    if isinstance(v, (bytes, bytearray)):
        return bytes(v)
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return "<%s>" % type(v).__name__

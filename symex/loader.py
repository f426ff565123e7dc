"""
Loads the project's real source files into a fresh module universe, once per explored path.

mode "sym":   the AST of each file gets two mechanical, semantics preserving rewrites (f-strings and str.join become
              helper calls) and the builtins int/str/repr/bytes/... are replaced by versions accepting symbolic values.
mode "plain": the unmodified source with Python's own builtins (used to replay counterexamples and to validate the
              symbolic execution against real runs).

Hardware libraries (adafruit_midi, displayio, ...) and the clock come from the stubs folder in both modes.
"""
import ast
import builtins
import os
import sys
import types
import math as _math
import array as _array
import struct
import ctypes

from . import proxies as P

REPO = os.environ.get("VERIF_REPO", "/repo")
STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")

_real = builtins

# ---------------------------------------------------------------- symbolic builtins

class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (int, P.SymInt, P.SymBool))

    def __call__(cls, *a, **k):
        if a and not k:
            v = a[0]
            if len(a) == 1:
                if isinstance(v, P.SymInt):
                    return v
                if isinstance(v, P.SymBool):
                    return v._int()
                if isinstance(v, P.SymFloat):
                    return v.trunc()
                if isinstance(v, P.SymStr):
                    ps = v.parts
                    if len(ps) == 1 and not isinstance(ps[0], str) and ps[0].kind == "int":
                        return ps[0].v
                    return int(v.concrete())
            elif isinstance(v, P.SymStr):
                return int(v.concrete(), *a[1:])
        return int(*a, **k)

class sym_int(metaclass = _IntMeta):
    from_bytes = int.from_bytes


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (float, P.SymFloat))

    def __call__(cls, *a):
        if a and isinstance(a[0], (P.SymInt, P.SymBool, P.SymFloat)):
            return P.SymFloat.of(a[0])
        return float(*a)

class sym_float(metaclass = _FloatMeta):
    pass


class _BoolMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (bool, P.SymBool))

    def __call__(cls, *a):
        if a and isinstance(a[0], P.SymBool):
            return a[0]
        if a and isinstance(a[0], P.SymInt):
            return P.mkbool(a[0].e != 0)
        return bool(*a)

class sym_bool(metaclass = _BoolMeta):
    pass


class _StrMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (str, P.SymStr))

    def __call__(cls, *a, **k):
        if len(a) == 1 and (P.is_sym(a[0]) or isinstance(a[0], (list, tuple))):
            return P.to_symstr(a[0])
        return str(*a, **k)

class sym_str(metaclass = _StrMeta):
    join = staticmethod(lambda sep, it: sx_join(sep, it))


class _BytesMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (bytes, P.SymBytes))

    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            v = a[0]
            if isinstance(v, P.SymBytes):
                return v
            if isinstance(v, (int, P.SymInt)):
                return bytes(v.__index__())
            if not isinstance(v, (bytes, bytearray, str)):
                return P.SymBytes.make(v)
        return bytes(*a, **k)

class sym_bytes(metaclass = _BytesMeta):
    pass


class _BytearrayMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (bytearray, SymBytearray))

    def __call__(cls, *a, **k):
        if len(a) == 1 and isinstance(a[0], (int,)):
            return SymBytearray([0] * a[0])
        return SymBytearray(list(*a))

class sym_bytearray(metaclass = _BytearrayMeta):
    pass


class SymBytearray(list):
    """bytearray which may hold symbolic bytes"""
    def __getitem__(self, i):
        r = list.__getitem__(self, i)
        return SymBytearray(r) if isinstance(i, slice) else r

    def __add__(self, o):
        return SymBytearray(list(self) + list(o))

    def __radd__(self, o):
        return SymBytearray(list(o) + list(self))

    def append(self, v):
        P.SymBytes.make([v])
        list.append(self, v)

    def extend(self, v):
        P.SymBytes.make(list(v))
        list.extend(self, v)


def sym_repr(v):
    if P.is_sym(v) or isinstance(v, (list, tuple)):
        return P.to_symstr(v, "r")
    return repr(v)


def sym_chr(v):
    if isinstance(v, P.SymInt):
        if not bool(P.s_and(v >= 0, v <= 0x10ffff)):
            raise ValueError("chr() arg not in range(0x110000)")
        return P.SymStr.make([P.Part("chr", v)])
    return chr(v)


def sym_ord(v):
    if isinstance(v, P.SymStr):
        c = v.chars() if v.all_chr() else list(v.concrete())
        if len(c) != 1:
            raise TypeError("ord() expected a character")
        return ord(c[0]) if isinstance(c[0], str) else c[0].v
    return ord(v)


def _minmax(native, pick):
    def f(*a, **k):
        if not k and len(a) > 1 and any(isinstance(x, P.SymInt) for x in a) and all(isinstance(x, (int, P.SymInt)) for x in a):
            r = a[0]
            for x in a[1:]:
                c = pick(x, r)
                r = P.s_ite(c, x, r)
            return r
        return native(*a, **k)
    return f

sym_min = _minmax(min, lambda x, r: x < r)
sym_max = _minmax(max, lambda x, r: x > r)


def sx_fstr(*parts):
    out = []
    sym = False
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        s = P.to_symstr(v, "r" if conv == 114 else "s", spec) if (P.is_sym(v) or isinstance(v, (list, tuple))) else \
            format(repr(v) if conv == 114 else (str(v) if conv == 115 else v), spec)
        out.append(s)
        if isinstance(s, P.SymStr):
            sym = True
    if not sym:
        return "".join(out)
    return P.SymStr.make(out)


def sx_join(sep, it):
    if isinstance(sep, (str, P.SymStr)):
        items = list(it)
        if isinstance(sep, str) and all(isinstance(x, str) for x in items):
            return sep.join(items)
        out = []
        for i, x in enumerate(items):
            if not isinstance(x, (str, P.SymStr)):
                raise TypeError("sequence item %d: expected str instance" % i)
            if i:
                out.append(sep)
            out.append(x)
        return P.SymStr.make(out)
    return sep.join(it)


def _part(v, conv = "", spec = ""):
    if P.is_sym(v) or isinstance(v, (list, tuple)):
        return P.to_symstr(v, conv or "s", spec)
    if conv == "r":
        v = repr(v)
    elif conv == "s":
        v = str(v)
    return format(v, spec)


def sx_replace(obj, *args, **kw):
    """obj.replace(a, b) with symbolic strings"""
    if isinstance(obj, (str, P.SymStr)) and len(args) == 2 and not kw and (isinstance(obj, P.SymStr) or isinstance(args[1], P.SymStr)) and isinstance(args[0], str) and args[0] \
            and (isinstance(obj, str) or not obj.all_chr()):
        out = []
        for p in ([obj] if isinstance(obj, str) else obj.parts):
            if isinstance(p, str):
                for i, x in enumerate(p.split(args[0])):
                    if i:
                        out.append(args[1])
                    out.append(x)
            else:
                if args[0].lstrip("-").isdigit() or args[0] == "-":
                    raise P.Unsupported("replacing digits in a symbolic string")
                out.append(p)
        return P.SymStr.make(out)
    return obj.replace(*args, **kw)


def sx_format(obj, *args, **kw):
    """obj.format(...) with symbolic arguments"""
    if not isinstance(obj, str) or not any(P.is_sym(x) for x in list(args) + list(kw.values())):
        return obj.format(*args, **kw)
    out = []
    auto = 0
    import string
    for lit, field, spec, conv in string.Formatter().parse(obj):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            raise P.Unsupported("format field " + field)
        out.append(_part(v, conv or "", spec or ""))
    return P.SymStr.make(out)


def sx_mod(left, right):
    """'..' % args with symbolic arguments"""
    import re
    items = right if isinstance(right, tuple) else (right,)
    if not any(P.is_sym(x) for x in items):
        return left % right
    out = []
    pos = n = 0
    for m in re.finditer(r"%(%|[sdr])", left):
        out.append(left[pos:m.start()])
        pos = m.end()
        if m.group(1) == "%":
            out.append("%")
        else:
            out.append(_part(items[n], "r" if m.group(1) == "r" else ""))
            n += 1
    out.append(left[pos:])
    if n != len(items) or "%" in left[pos:]:
        raise P.Unsupported("format string " + left)
    return P.SymStr.make(out)


def _keys(k, o):
    return type(k) is P.SymInt and type(o) in (dict, set, frozenset, tuple, list, range) and len(o) > 0 and all(type(x) is int for x in o)


def sx_in(a, b):
    """a in b: one case split for symbolic numbers and plain containers"""
    if _keys(a, b):
        return P.s_or(*[a == k for k in b])
    return a in b


def sx_notin(a, b):
    if _keys(a, b):
        return P.s_not(P.s_or(*[a == k for k in b]))
    return a not in b


def sx_getitem(o, k):
    if type(o) is dict and _keys(k, o):
        if not sx_in(k, o):
            raise KeyError(k)
    return o[k]


def sx_get(o, *args, **kw):
    """o.get(k[, default])"""
    if type(o) is dict and args and _keys(args[0], o) and not sx_in(args[0], o):
        return args[1] if len(args) > 1 else None
    return o.get(*args, **kw)


# ---------------------------------------------------------------- array shim

class SymArray(list):
    typecode = "f"

def sym_array(typecode, init = ()):
    items = list(init)
    if any(P.is_sym(x) for x in items):
        if typecode == "f":
            items = [f32(x) for x in items]
        elif any(isinstance(x, P.SymFloat) for x in items):
            raise TypeError("array item must be integer")
        a = SymArray(items)
        a.typecode = typecode
        return a
    return ArrayProxy(typecode, items)

def f32(x):
    if isinstance(x, P.SymInt) or isinstance(x, P.SymBool):
        return x
    if isinstance(x, P.SymFloat):
        return x                        # storage rounding of symbolic LED brightness is outside the claim
    return ctypes.c_float(x).value

class ArrayProxy(_array.array):
    def append(self, v):
        if isinstance(v, P.SymInt):
            v = v.__index__()
        _array.array.append(self, v)


# ---------------------------------------------------------------- rewriting

class Rewriter(ast.NodeTransformer):
    def visit_JoinedStr(self, node):
        args = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                args.append(v)
            else:
                inner = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec else ast.Constant("")
                args.append(ast.Tuple([inner, ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(ast.Call(ast.Name("__sx_fstr__", ast.Load()), args, []), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr == "join" and len(node.args) == 1 and not node.keywords:
            return ast.copy_location(ast.Call(ast.Name("__sx_join__", ast.Load()), [node.func.value, node.args[0]], []), node)
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("replace", "format", "get"):
            return ast.copy_location(ast.Call(ast.Name("__sx_%s__" % node.func.attr, ast.Load()), [node.func.value] + node.args, node.keywords), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            f = "__sx_in__" if isinstance(node.ops[0], ast.In) else "__sx_notin__"
            return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [node.left, node.comparators[0]], []), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Constant)) and not (isinstance(node.slice, ast.Tuple) and any(isinstance(e, ast.Slice) for e in node.slice.elts)):
            return ast.copy_location(ast.Call(ast.Name("__sx_getitem__", ast.Load()), [node.value, node.slice], []), node)
        return node

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value:
            node.value = self.visit(node.value)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(ast.Call(ast.Name("__sx_mod__", ast.Load()), [node.left, node.right], []), node)
        return node


_CODE = {}

def compiled(path, mode):
    k = (path, mode)
    if k not in _CODE:
        with open(path, encoding = "utf-8") as f:
            src = f.read()
        tree = ast.parse(src, path)
        if mode == "sym":
            tree = Rewriter().visit(tree)
            ast.fix_missing_locations(tree)
        _CODE[k] = compile(tree, path, "exec")
    return _CODE[k]


# ---------------------------------------------------------------- universe

class Universe:
    """One fresh set of modules"""

    def __init__(self, mode, roots = None):
        self.mode = mode
        self.modules = {}
        self.roots = roots or [
            ("pyswitch", os.path.join(REPO, "content/lib/pyswitch")),
        ]
        b = dict(vars(_real))
        b["__import__"] = self._import
        b["print"] = lambda *a, **k: None
        if mode == "sym":
            b.update({
                "int": sym_int, "float": sym_float, "bool": sym_bool, "str": sym_str, "bytes": sym_bytes,
                "bytearray": sym_bytearray, "repr": sym_repr, "chr": sym_chr, "ord": sym_ord,
                "min": sym_min, "max": sym_max,
                "__sx_fstr__": sx_fstr, "__sx_join__": sx_join,
                "__sx_replace__": sx_replace, "__sx_format__": sx_format, "__sx_mod__": sx_mod,
                "__sx_in__": sx_in, "__sx_notin__": sx_notin, "__sx_getitem__": sx_getitem, "__sx_get__": sx_get,
            })
        self.builtins = b
        self._install_basic()

    def _install_basic(self):
        m = types.ModuleType("math")
        m.__dict__.update({k: v for k, v in vars(_math).items()})
        self.modules["math"] = m
        a = types.ModuleType("array")
        a.array = sym_array if self.mode == "sym" else _array.array
        self.modules["array"] = a
        self.modules["sys"] = sys

    def set_module(self, name, mod):
        self.modules[name] = mod

    def find(self, name):
        """Path of a module's source file, or None; second value tells if it is a package"""
        for prefix, root in self.roots:
            if name == prefix or name.startswith(prefix + "."):
                p = os.path.join(root, *name.split(".")[len(prefix.split(".")):])
                if os.path.isdir(p):
                    init = os.path.join(p, "__init__.py")
                    return (init if os.path.exists(init) else None), True, p
                if os.path.exists(p + ".py"):
                    return p + ".py", False, None
        p = os.path.join(STUBS, *name.split("."))
        if os.path.isdir(p):
            init = os.path.join(p, "__init__.py")
            return (init if os.path.exists(init) else None), True, p
        if os.path.exists(p + ".py"):
            return p + ".py", False, None
        return None, False, False

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        else:
            parent = None
        path, pkg, d = self.find(name)
        if path is None and not pkg:
            if name.split(".")[0] in sys.stdlib_module_names:
                import importlib
                m = importlib.import_module(name)
                self.modules[name] = m
                return m
            raise ImportError("No module named " + name)
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.builtins
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [d]
        m.__file__ = path
        self.modules[name] = m
        if path:
            exec(compiled(path, self.mode), m.__dict__)
        if parent is not None:
            setattr(parent, name.rsplit(".", 1)[1], m)
        return m

    def _import(self, name, globals = None, locals = None, fromlist = (), level = 0):
        if level > 0:
            pkg = globals["__package__"]
            base = pkg.split(".")
            if level > 1:
                base = base[:-(level - 1)]
            full = ".".join(base + ([name] if name else []))
        else:
            full = name
        m = self.load(full)
        if fromlist:
            for f in fromlist:
                if f != "*" and not hasattr(m, f):
                    try:
                        self.load(full + "." + f)
                    except ImportError:
                        pass
            return m
        if level > 0:
            return m
        return self.load(full.split(".")[0]) if "." in full else m

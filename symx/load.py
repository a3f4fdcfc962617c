"""Loads modules of /repo from source into an environment with symbolic-aware builtins.

Every check starts from the current text of /repo: the module source is parsed, a few
operations that CPython would carry out in C on concrete values only (string formatting,
str.join, indexing of Python sequences) are routed to helpers, and the module is executed
with a private builtins dictionary and private stand-ins for numpy, functools, enum, random...
"""
import ast
import builtins
import collections
import copy
import os
import sys
import types

import z3

from . import core, snp
from .core import (Num, SymBool, Flt, Unsupported, Engine, as_bool, asnum, b_and, b_any, b_or,
                   b_all, cast, ite, wrap_dt, DTS)

REPO = os.environ.get("VERIF_REPO", "/repo")


# ------------------------------------------------------------------ AST transform

class _Tr(ast.NodeTransformer):
    depth = 0
    count = 0

    def visit_If(self, n):
        """Merges the two sides of a decision that only chooses numbers, instead of splitting the path."""
        if not self.depth or not (_pure_block(n.body) and _pure_block(n.orelse) and _pure(n.test, True)):
            self.generic_visit(n)
            return n
        names = sorted(_assigned(n.body) | _assigned(n.orelse))
        need = tuple(v not in (_must(n.body) & _must(n.orelse)) for v in names)
        self.generic_visit(n)
        if not names:
            return n
        _Tr.count += 1
        k = _Tr.count
        c, done = "sym_c%d__" % k, "sym_d%d__" % k
        old = ["sym_o%d_%s" % (k, v) for v in names]
        new = ["sym_n%d_%s" % (k, v) for v in names]

        def setv(a, b):
            return ast.Assign([ast.Name(a, ast.Store())], ast.Name(b, ast.Load()))
        ld = lambda v: ast.Name(v, ast.Load())
        out = [ast.Assign([ast.Name(c, ast.Store())], n.test),
               ast.Assign([ast.Name(done, ast.Store())], ast.Constant(False))]
        for v, o in zip(names, old):
            out.append(ast.Try([setv(o, v)], [ast.ExceptHandler(ld("NameError"), None, [setv(o, "sym_unbound__")])], [], []))
        merge = list(copy.deepcopy(n.body)) + [setv(x, v) for x, v in zip(new, names)]
        merge += [setv(v, o) for v, o in zip(names, old)]
        merge += copy.deepcopy(n.orelse)
        merge += [ast.Assign([ast.Name(v, ast.Store())], ast.Call(ld("sym_pick__"), [ld(c), ld(x), ld(v)], []))
                  for x, v in zip(new, names)]
        merge.append(ast.Assign([ast.Name(done, ast.Store())], ast.Constant(True)))
        out.append(ast.If(ast.Call(ld("sym_merge__"), [ld(c), ast.Tuple([ld(o) for o in old], ast.Load()), ast.Constant(need)], []),
                          [ast.Try(merge, [ast.ExceptHandler(ld("sym_errors__"), None, [setv(v, o) for v, o in zip(names, old)])],
                                   [], [])], []))
        out.append(ast.If(ast.UnaryOp(ast.Not(), ld(done)), [ast.If(ld(c), n.body, n.orelse)], []))
        return [ast.copy_location(x, n) for x in out]

    def visit_IfExp(self, n):
        ok = self.depth and _pure(n.body) and _pure(n.orelse)
        self.generic_visit(n)
        if not ok:
            return n
        none = ast.arguments([], [], None, [], [], None, [])
        return ast.copy_location(ast.Call(ast.Name("sym_ifexp__", ast.Load()), [
            n.test, ast.Lambda(none, n.body), ast.Lambda(copy.deepcopy(none), n.orelse)], []), n)

    def visit_ClassDef(self, n):
        d, self.depth = self.depth, 0
        self.generic_visit(n)
        self.depth = d
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(
                ast.Name("sym_mod__", ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "join" and len(n.args) == 1 and not n.keywords:
            return ast.copy_location(ast.Call(
                ast.Name("sym_join__", ast.Load()), [n.func.value, n.args[0]], []), n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "get" and len(n.args) in (1, 2) and not n.keywords and not any(
                isinstance(a, ast.Starred) for a in n.args):
            return ast.copy_location(ast.Call(
                ast.Name("sym_get__", ast.Load()), [n.func.value] + n.args, []), n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, (ast.Slice, ast.Tuple, ast.Constant)):
            return ast.copy_location(ast.Call(
                ast.Name("sym_getitem__", ast.Load()), [n.value, n.slice], []), n)
        return n

    def visit_AnnAssign(self, n):
        if n.value is None:
            return ast.copy_location(ast.Pass(), n)
        n.value = self.visit(n.value)
        n.target = self.visit(n.target)
        return ast.copy_location(ast.Assign([n.target], n.value), n)

    def visit_FunctionDef(self, n):
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
            a.annotation = None
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(ast.Name("sym_in__", ast.Load()), [n.left, n.comparators[0]], [])
            if isinstance(n.ops[0], ast.NotIn):
                c = ast.UnaryOp(ast.Not(), c)
            return ast.copy_location(c, n)
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return n


_PURE_OPS = (ast.Add, ast.Sub, ast.Mult, ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift, ast.RShift)


def _pure(e, test=False):
    """Expressions without effects, whose value is a number if those of the names are."""
    if isinstance(e, ast.Constant):
        return isinstance(e.value, (int, bool))
    if isinstance(e, ast.Name):
        return True
    if isinstance(e, ast.Attribute):
        return _pure(e.value)
    if isinstance(e, ast.BinOp):
        return isinstance(e.op, _PURE_OPS + ((ast.Mod, ast.FloorDiv) if test else ())) and _pure(e.left, test) and _pure(e.right, test)
    if isinstance(e, ast.UnaryOp):
        return _pure(e.operand, test)
    if isinstance(e, ast.Compare):
        return all(isinstance(o, (ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE)) for o in e.ops) and all(
            _pure(x, test) for x in [e.left] + e.comparators)
    return False


def _pure_block(b):
    for x in b:
        if isinstance(x, ast.Pass):
            continue
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and _pure(x.value):
            continue
        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and isinstance(x.op, _PURE_OPS) and _pure(x.value):
            continue
        if isinstance(x, ast.If) and _pure(x.test) and _pure_block(x.body) and _pure_block(x.orelse):
            continue
        return False
    return True


def _assigned(b):
    r = set()
    for x in b:
        if isinstance(x, ast.Assign):
            r.add(x.targets[0].id)
        elif isinstance(x, ast.AugAssign):
            r.add(x.target.id)
        elif isinstance(x, ast.If):
            r |= _assigned(x.body) | _assigned(x.orelse)
    return r


def _must(b):
    """Names that a block sets whatever they were before."""
    r = set()
    for x in b:
        if isinstance(x, ast.Assign):
            r.add(x.targets[0].id)
        elif isinstance(x, ast.If):
            r |= _must(x.body) & _must(x.orelse)
    return r


class _Unbound:
    pass


_UNBOUND = _Unbound()


def _scalar_kind(v):
    if isinstance(v, (bool, SymBool)):
        return "bool"
    if type(v) is int:
        return ("num", None)
    if type(v) is Num:
        return ("num", v.dt)
    return None


def _undecided(c):
    """Is the condition one that the path leaves open?"""
    if type(c) is Num and c.t is not None:
        c = c != 0
    if not isinstance(c, SymBool) or c.c is not None:
        return None
    e = core.eng()
    s = z3.simplify(c.t)
    if z3.is_true(s) or z3.is_false(s) or not e._check(c.t) or not e._check(z3.Not(c.t)):
        return None
    return c


def _sym_merge(c, olds, need):
    if not isinstance(c, (SymBool, Num)):
        return False
    for o, n in zip(olds, need):
        if o is _UNBOUND:
            if n:
                return False
        elif _scalar_kind(o) is None:
            return False
    return _undecided(c) is not None


def _sym_pick(c, a, b):
    if a is b:
        return a
    k = _scalar_kind(a)
    if k is None or k != _scalar_kind(b):
        raise Unsupported("different kinds of value")
    if type(c) is Num:
        c = c != 0
    return ite(c, a, b)


def _sym_ifexp(c, a, b):
    if isinstance(c, (SymBool, Num)):
        u = _undecided(c)
        if u is not None:
            try:
                return _sym_pick(u, a(), b())
            except (Exception, Unsupported):
                pass
    return a() if c else b()


def _sym_mod(a, b):
    if isinstance(a, str):
        try:
            return a % _fmtarg(b)
        except (Unsupported, TypeError, ValueError):
            if _has_sym(b):
                return "?"
            raise
    if isinstance(a, (bytes, bytearray)):
        return a % b
    return a % b


class _S:
    """Stands for a symbolic value in formatted text."""

    def __init__(self, v):
        self.v = v


def _has_sym(b):
    if isinstance(b, tuple):
        return any(_has_sym(x) for x in b)
    return isinstance(b, (Num, SymBool, Flt, snp.Opaque, snp.LazyMean, SymMember, SymStr, snp.Arr))


def _fmtarg(b):
    if isinstance(b, tuple):
        return tuple(_fmtarg(x) for x in b)
    if isinstance(b, Num):
        if b.t is None:
            return b.lo
        raise Unsupported("format of a symbolic value")
    if isinstance(b, SymBool):
        if b.c is not None:
            return b.c
        raise Unsupported("format")
    if isinstance(b, (Flt, SymStr, SymMember, snp.LazyMean, snp.Opaque)):
        raise Unsupported("format")
    return b


def _sym_join(sep, arg):
    if not isinstance(sep, (str, bytes)):
        return sep.join(arg)
    items = list(arg)
    if any(isinstance(x, SymStr) for x in items):
        out = []
        for i, x in enumerate(items):
            if i and sep:
                out.extend(ord(c) for c in sep)
            out.extend(x.codes if isinstance(x, SymStr) else [ord(c) for c in x])
        return SymStr(out)
    if isinstance(sep, bytes) and any(isinstance(x, SymBytes) for x in items):
        out = []
        for i, x in enumerate(items):
            if i:
                out.extend(sep)
            out.extend(x)
        return SymBytes(out)
    return sep.join(items)


def _sym_getitem(a, i):
    if isinstance(i, Num) and i.t is not None:
        if isinstance(a, str):
            n = len(a)
            if not bool(b_and(i >= -n, i < n)):
                raise IndexError("string index out of range")
            vals = [Num.of(ord(a[j])) for j in range(-n if i.lo < 0 else 0, n)]
            k = core.raw("sub", i, Num.of(-n if i.lo < 0 else 0))
            k = Num(k.t, max(k.lo, 0), min(k.hi, len(vals) - 1))
            return SymStr([snp.lookup_tree(vals, k)])
        if isinstance(a, SymStr):
            return SymStr([_sym_getitem(a.codes, i)])
        if isinstance(a, (list, tuple)) and a and all(isinstance(x, (int, Num)) and not isinstance(x, bool) for x in a):
            n = len(a)
            if not bool(b_and(i >= -n, i < n)):
                raise IndexError("list index out of range")
            if i.lo < 0:
                i = ite(i < 0, i + n, i)
            i = asnum(i)
            k = Num(i.t, max(i.lo, 0), min(i.hi, n - 1)) if i.t is not None else i
            dts = {x.dt if isinstance(x, Num) else None for x in a}
            if len(dts) == 1:
                dt = dts.pop()
                r = snp.lookup_tree([Num.of(x) for x in a], k)
                return Num(r.t, r.lo, r.hi, dt)
    if isinstance(i, SymBool):
        i = int(bool(i))
    if isinstance(i, Num) and i.t is not None and isinstance(a, dict) and type(a).__getitem__ in (
            dict.__getitem__, collections.OrderedDict.__getitem__):
        return _dict_get(a, i)
    return a[i]


def _sym_get(a, i, *default):
    if isinstance(i, Num) and i.t is not None and isinstance(a, dict) and type(a).get is dict.get:
        try:
            return _dict_get(a, i, False)
        except KeyError:
            return default[0] if default else None
    return a.get(i, *default)


def _dict_get(a, i, missing=True):
    """Entry of a dictionary under a symbolic integer key: one path per distinct value."""
    groups = {}
    for k, v in a.items():
        if isinstance(k, (int, Num)) and not isinstance(k, bool):
            k = int(k)
            if i.lo <= k <= i.hi:
                groups.setdefault(id(v), (v, []))[1].append(k)
    if len(groups) > 1024:
        if missing or i in a:   # forks over the values of i
            return a[i]
        raise KeyError(i)
    for v, ks in sorted(groups.values(), key=lambda g: -len(g[1])):
        if bool(_in_ranges(i, ks)):
            return v
    if not missing:
        raise KeyError(i)
    if isinstance(a, collections.defaultdict) and a.default_factory is not None:
        return a.default_factory()
    if hasattr(type(a), "__missing__") and not isinstance(a, collections.defaultdict):
        return a.__missing__(i)
    raise KeyError(i)


def _sym_in(x, c):
    if isinstance(c, (list, tuple)) and isinstance(x, (Num, SymBool, SymStr, SymMember)):
        return bool(b_any([as_bool(_eq(x, y)) for y in c])) if c else False
    if isinstance(c, range) and isinstance(x, Num) and x.t is not None:
        if len(c) == 0:
            return False
        lo, hi = min(c[0], c[-1]), max(c[0], c[-1])
        r = b_and(x >= lo, x <= hi)
        if abs(c.step) != 1:
            r = b_and(r, (x - c[0]) % abs(c.step) == 0)
        return bool(r)
    if isinstance(x, Num) and x.t is not None and isinstance(c, (dict, set, frozenset)):
        keys = [k for k in c if isinstance(k, (int, Num))]
        if len(keys) > 64:
            # decide membership without enumerating values
            return bool(_in_ranges(x, keys))
        return bool(b_any([as_bool(x == k) for k in keys])) if keys else False
    return x in c


def _in_ranges(x, keys):
    ks = sorted({int(k) for k in keys})
    rs = []
    s = p = ks[0]
    for k in ks[1:]:
        if k != p + 1:
            rs.append((s, p))
            s = k
        p = k
    rs.append((s, p))
    return b_any([b_and(as_bool(x >= a), as_bool(x <= b)) for a, b in rs])


def _eq(x, y):
    r = x == y
    return r if isinstance(r, (SymBool, bool)) else bool(r)


# ------------------------------------------------------------------ text and bytes

class SymStr:
    """A string of known length with possibly symbolic characters."""
    _sym_obj = True
    __hash__ = None

    def __init__(self, codes):
        self.codes = [c.lo if isinstance(c, Num) and c.t is None else c for c in codes]

    def __len__(self):
        return len(self.codes)

    def __add__(self, o):
        return SymStr(self.codes + (o.codes if isinstance(o, SymStr) else [ord(c) for c in o]))

    def __radd__(self, o):
        return SymStr([ord(c) for c in o] + self.codes)

    def __iter__(self):
        return iter(SymStr([c]) for c in self.codes)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymStr(self.codes[i])
        return SymStr([self.codes[i]])

    def __eq__(self, o):
        oc = o.codes if isinstance(o, SymStr) else [ord(c) for c in o] if isinstance(o, str) else None
        if oc is None or len(oc) != len(self.codes):
            return False
        return b_all([as_bool(Num.of(a) == b) for a, b in zip(self.codes, oc)])

    def __ne__(self, o):
        return core.b_not(as_bool(self == o))

    def __str__(self):
        return "?"

    __format__ = lambda self, s: "?"


class SymBytes:
    """bytes / bytearray with possibly symbolic elements."""
    _sym_obj = True
    __hash__ = None

    def __init__(self, src=()):
        if isinstance(src, (SymBytes,)):
            self.b = list(src.b)
        elif isinstance(src, int) and not isinstance(src, bool):
            self.b = [0] * src
        elif isinstance(src, Num):
            self.b = [0] * src.__index__()
        elif isinstance(src, snp.Arr):
            self.b = src._bytes()
        elif isinstance(src, snp.RawArr):
            self.b = list(src)
        else:
            self.b = [_byte(x) for x in src]

    def __len__(self):
        return len(self.b)

    def __iter__(self):
        return iter(self.b)

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[None if z is None else z.__index__() for z in (i.start, i.stop, i.step)])
            return type(self)(self.b[i])
        return _sym_getitem(self.b, i)

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            self.b[i] = [_byte(x) for x in v]
        else:
            self.b[i] = _byte(v)

    def __delitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[None if z is None else z.__index__() for z in (i.start, i.stop, i.step)])
        del self.b[i]

    def append(self, v):
        self.b.append(_byte(v))

    def extend(self, v):
        self.b.extend(_byte(x) for x in v)

    def __iadd__(self, v):
        self.extend(v)
        return self

    def __add__(self, o):
        return SymBytes(self.b + [_byte(x) for x in o])

    def __radd__(self, o):
        return SymBytes([_byte(x) for x in o] + self.b)

    def __mul__(self, n):
        return SymBytes(self.b * n)

    def __eq__(self, o):
        o = list(o)
        if len(o) != len(self.b):
            return False
        return b_all([as_bool(Num.of(a) == b) for a, b in zip(self.b, o)])

    def __ne__(self, o):
        return core.b_not(as_bool(self == o))

    def clear(self):
        del self.b[:]

    def hex(self, *a):
        return "?"

    def tobytes(self):
        return self


def _byte(x):
    n = asnum(x)
    if n is None:
        raise TypeError("an integer is required, not %r" % type(x))
    if n.t is None:
        if not 0 <= n.lo <= 255:
            raise ValueError("byte must be in range(0, 256)")
        return n.lo
    if n.lo < 0 or n.hi > 255:
        if not bool(b_and(n >= 0, n <= 255)):
            raise ValueError("byte must be in range(0, 256)")
        n = Num(n.t, max(n.lo, 0), min(n.hi, 255))
    return Num(n.t, n.lo, n.hi)


def _mkbytes(mut):
    def new(src=(), *a, **k):
        if isinstance(src, str):
            return (bytearray if mut else bytes)(src, *a, **k)
        if isinstance(src, (bytes, bytearray)) and not mut:
            return bytes(src)
        r = SymBytes(src)
        if not mut and all(type(x) is int for x in r.b):
            return bytes(r.b)
        return r
    return new


class _BytesMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (cls._real, SymBytes))

    def __call__(cls, *a, **k):
        return _mkbytes(cls._real is bytearray)(*a, **k)

    def __getattr__(cls, n):
        return getattr(cls._real, n)


class sym_bytes(metaclass=_BytesMeta):
    _real = bytes


class sym_bytearray(metaclass=_BytesMeta):
    _real = bytearray


# ------------------------------------------------------------------ builtins

HEX = {}    # hexadecimal text -> the symbolic number it stands for


class _IntMeta(type):
    def __call__(cls, x=0, *a, **k):
        if a or k:
            if isinstance(x, str) and x in HEX and (a or (k.get("base"),))[0] in (16, 0):
                return HEX[x]
            return int(x, *a, **k)
        if isinstance(x, Num):
            return x.lo if x.t is None else Num(x.t, x.lo, x.hi, None)
        if isinstance(x, SymBool):
            return int(x.c) if x.c is not None else x.num()
        if isinstance(x, Flt):
            return flt_int(x)
        if isinstance(x, snp.Arr):
            return cls(x._one())
        return int(x)

    def __instancecheck__(cls, o):
        return isinstance(o, int) or (isinstance(o, Num) and o.dt is None)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __getattr__(cls, n):
        return getattr(int, n)


class sym_int(metaclass=_IntMeta):
    _sym_builtin = int


def flt_int(x):
    """int() of a float: exact within 2**62, forks on nan / inf / larger."""
    if isinstance(x, core.IFlt):
        return core.iflt_int(x)
    lim = z3.FPVal(2.0 ** 62, core.sort_of(x.dt))
    if not bool(SymBool(z3.And(z3.fpLEQ(z3.fpAbs(x.t), lim)))):
        if bool(SymBool(z3.fpIsNaN(x.t))):
            raise ValueError("cannot convert float NaN to integer")
        if bool(SymBool(z3.fpIsInf(x.t))):
            raise OverflowError("cannot convert float infinity to integer")
        raise Unsupported("int() of a huge float")
    t = z3.fpToSBV(z3.RTZ(), x.t, z3.BitVecSort(64))
    return Num(t, -2 ** 63, 2 ** 63 - 1, None)


class _FloatMeta(type):
    def __call__(cls, x=0.0):
        if isinstance(x, core.IFlt):
            return x
        if isinstance(x, Flt):
            return cast(x, core.F64)
        if isinstance(x, (Num, SymBool)) and Engine.current.float_interval and asnum(x).t is not None:
            return core.IFlt.of(x)
        if isinstance(x, (Num, SymBool)):
            n = asnum(x)
            if n.t is None:
                return float(n.lo)
            return Flt.of(n, core.F64)
        if isinstance(x, snp.Arr):
            return cls(x._one())
        if isinstance(x, snp.Opaque):
            return x
        return float(x)

    def __instancecheck__(cls, o):
        return isinstance(o, float) or (isinstance(o, Flt) and o.dt is core.F64)

    def __getattr__(cls, n):
        return getattr(float, n)


class sym_float(metaclass=_FloatMeta):
    _sym_builtin = float


class _BoolMeta(type):
    def __call__(cls, x=False):
        if isinstance(x, SymBool):
            return x
        if isinstance(x, Num):
            return x != 0
        return bool(x)

    def __instancecheck__(cls, o):
        return isinstance(o, (bool, SymBool))

    def __getattr__(cls, n):
        return getattr(bool, n)


class sym_bool(metaclass=_BoolMeta):
    _sym_builtin = bool


def sym_abs(x):
    return abs(x)


def _sym_minmax(lt):
    real = min if lt else max

    def f(*args, key=None, default=_sym_minmax):
        xs = list(args[0]) if len(args) == 1 else list(args)
        if not xs:
            if default is not _sym_minmax:
                return default
            raise ValueError("min() arg is an empty sequence")
        if key is None and all(isinstance(x, (int, float, Num, Flt, SymBool)) for x in xs) and any(isinstance(x, (Num, Flt, SymBool)) for x in xs):
            r = xs[0]
            for x in xs[1:]:
                c = (x < r) if lt else (x > r)
                if isinstance(r, (Num, int)) and isinstance(x, (Num, int)) or type(r) is type(x):
                    r = ite(c, x, r)
                else:
                    r = x if c else r
            return r
        return real(xs, key=key) if key else real(xs)
    return f


def sym_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def sym_chr(x):
    n = asnum(x)
    if n is not None and n.t is not None:
        return SymStr([n])
    return chr(int(x))


def sym_ord(x):
    if isinstance(x, SymStr):
        return x.codes[0]
    return ord(x)


def sym_str(*a):
    if a and isinstance(a[0], (SymStr,)):
        return a[0]
    return str(*a)


class _StrMeta(type):
    def __call__(cls, *a, **k):
        if a and isinstance(a[0], SymStr):
            return a[0]
        return str(*a, **k)

    def __instancecheck__(cls, o):
        return isinstance(o, (str, SymStr))

    def __getattr__(cls, n):
        return getattr(str, n)


class sym_str(metaclass=_StrMeta):
    _sym_builtin = str


def sym_bin(x):
    return bin(x) if not isinstance(x, Num) or x.t is None else "?"


def sym_hex(x):
    return hex(x) if not isinstance(x, Num) or x.t is None else "?"


def sym_round(x, n=None):
    if isinstance(x, Num) and n is None:
        return x
    if isinstance(x, Flt):
        if n is not None:
            raise Unsupported("round to digits")
        return flt_int(Flt(z3.fpRoundToIntegral(z3.RNE(), x.t), x.dt))
    return round(x) if n is None else round(x, n)


def sym_divmod(a, b):
    return a // b, a % b


def sym_pow(a, b, m=None):
    r = a ** b
    return r if m is None else r % m


def sym_len(x):
    return len(x)


def sym_print(*a, **k):
    return None


def sym_isinstance(o, c):
    if isinstance(c, tuple):
        return any(sym_isinstance(o, x) for x in c)
    if c is int:
        c = sym_int
    elif c is float:
        c = sym_float
    elif c is bool:
        c = sym_bool
    elif c is str:
        c = sym_str
    elif c is snp.ndarray:
        return isinstance(o, (snp.Arr, snp.SymTable))
    return isinstance(o, c)


def sym_type(*a):
    if len(a) == 1:
        o = a[0]
        if isinstance(o, SymMember):
            return o.cls
        if isinstance(o, (int, Num)) and not isinstance(o, bool) and (not isinstance(o, Num) or o.dt is None):
            return sym_int
        if isinstance(o, snp.Arr):
            return snp.ndarray
        return type(o)
    return type(*a)


class _TypeMeta(type):
    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            return sym_type(*a)
        return type(*a, **k)

    def __instancecheck__(cls, o):
        return isinstance(o, type)


class sym_typecls(metaclass=_TypeMeta):
    pass


def make_builtins(extra=None):
    d = dict(vars(builtins))
    d.update({
        "int": sym_int, "float": sym_float, "bool": sym_bool, "bytes": sym_bytes,
        "bytearray": sym_bytearray, "min": _sym_minmax(True), "max": _sym_minmax(False),
        "sum": sym_sum, "chr": sym_chr, "ord": sym_ord, "bin": sym_bin, "hex": sym_hex,
        "round": sym_round, "divmod": sym_divmod, "pow": sym_pow, "print": sym_print,
        "isinstance": sym_isinstance, "str": sym_str, "type": type,
        "sym_mod__": _sym_mod, "sym_join__": _sym_join, "sym_get__": _sym_get, "sym_getitem__": _sym_getitem,
        "sym_in__": _sym_in, "sym_merge__": _sym_merge, "sym_pick__": _sym_pick, "sym_ifexp__": _sym_ifexp,
        "sym_unbound__": _UNBOUND, "sym_errors__": (Exception, Unsupported),
    })
    d.update(extra or {})
    return d


# ------------------------------------------------------------------ functools / enum stand-ins

def _key_of(x):
    if isinstance(x, Num):
        if x.t is None:
            return ("n", x.lo)
        return ("t", x.t.get_id(), x.lo, x.hi)
    if isinstance(x, SymBool):
        return ("b", x.c) if x.c is not None else ("bt", x.t.get_id())
    if isinstance(x, Flt):
        return ("f", x.t.get_id())
    if isinstance(x, tuple):
        return ("tup",) + tuple(_key_of(y) for y in x)
    if isinstance(x, SymStr):
        return ("s",) + tuple(_key_of(Num.of(y)) for y in x.codes)
    if isinstance(x, SymMember):
        return ("m", id(x.cls), _key_of(x.value))
    if isinstance(x, (bool, int)):
        return ("n", int(x))
    hash(x)
    return ("o", x)


def lru_cache(maxsize=128, typed=False):
    """Cache keyed by value; symbolic arguments hit when they are the same term.

    A path's process inherits the cache of the paths it split from.
    """
    if callable(maxsize) and not isinstance(maxsize, (int, Num)):
        return lru_cache(128)(maxsize)

    def deco(f):
        state = {"d": {}}

        def wrapper(*a, **k):
            key = (tuple(_key_of(x) for x in a), tuple((n, _key_of(v)) for n, v in sorted(k.items())))
            d = state["d"]
            if key in d:
                return d[key][0]
            r = f(*a, **k)
            d[key] = (r, a, k)  # keep arguments alive: keys hold term ids
            return r
        wrapper.__wrapped__ = f
        wrapper.__name__ = getattr(f, "__name__", "f")
        wrapper.__doc__ = getattr(f, "__doc__", None)
        wrapper.cache_clear = lambda: state["d"].clear()
        wrapper.cache_info = lambda: None
        return wrapper
    return deco


def make_functools():
    import functools
    m = types.ModuleType("functools")
    for n in dir(functools):
        setattr(m, n, getattr(functools, n))
    m.lru_cache = lru_cache
    m.cache = lru_cache(None)
    return m


class SymMember:
    """A member of an enum selected by a symbolic value."""
    _sym_obj = True

    def __init__(self, cls, value):
        self.cls = cls
        self.value = value
        self._value_ = value

    @property
    def name(self):
        raise Unsupported("name of a symbolic enum member")

    def concrete(self):
        return self.cls(int(self.value.__index__()))

    def __eq__(self, o):
        if isinstance(o, SymMember):
            return self.value == o.value if o.cls is self.cls else False
        if isinstance(o, self.cls):
            return self.value == o.value
        return False

    def __ne__(self, o):
        r = self == o
        return core.b_not(as_bool(r))

    def __hash__(self):
        return hash(self.concrete())


def make_enum():
    import enum
    m = types.ModuleType("enum")
    for n in dir(enum):
        setattr(m, n, getattr(enum, n))

    class SymEnumMeta(enum.EnumMeta):
        def __call__(cls, value, *a, **k):
            if not a and not k:
                if isinstance(value, Num) and value.t is None:
                    value = value.lo
                if isinstance(value, (Num, SymMember)):
                    if isinstance(value, SymMember):
                        return value
                    vals = {mm.value for mm in cls if isinstance(mm.value, int)}
                    if not (value.hi - value.lo < 4096 and all(
                            v in vals for v in range(value.lo, value.hi + 1))):
                        ok = b_any([as_bool(value == v) for v in sorted(vals)])
                        if not bool(ok):
                            raise ValueError("%r is not a valid %s" % (value, cls.__name__))
                    return SymMember(cls, value)
            return super().__call__(value, *a, **k)

        def __instancecheck__(cls, o):
            if isinstance(o, SymMember):
                return issubclass(o.cls, cls)
            return type.__instancecheck__(cls, o)

    class Enum(enum.Enum, metaclass=SymEnumMeta):
        pass

    class IntEnum(enum.IntEnum, metaclass=SymEnumMeta):
        pass

    class IntFlag(enum.IntFlag, metaclass=SymEnumMeta):
        pass

    m.Enum, m.IntEnum, m.EnumMeta, m.EnumType = Enum, IntEnum, SymEnumMeta, SymEnumMeta
    return m


def make_random():
    m = types.ModuleType("random")

    def getrandbits(n):
        return rnd(2 ** n)

    def rnd(limit):
        if m.hook is not None:
            return m.hook(limit)
        v = core.eng().fresh_unique("rnd", max((limit - 1).bit_length(), 1), None, lo=0, hi=limit - 1)
        return v
    m.hook = None
    m.getrandbits = getrandbits
    m.randrange = lambda a, b=None: rnd(a) if b is None else a + rnd(b - a)
    m.randint = lambda a, b: a + rnd(b - a + 1)
    m.seed = lambda *a: None
    m.choice = lambda xs: xs[rnd(len(xs)).__index__() if isinstance(rnd(len(xs)), Num) else 0]
    m.shuffle = lambda xs: None

    def random():
        # only its order matters: a multiple of 2**-8
        return rnd(256) / 256.0
    m.random = random
    m.Random = lambda *a: m
    m.SystemRandom = lambda *a: m
    return m


# ------------------------------------------------------------------ loader

def stub(name, **attrs):
    m = types.ModuleType(name)
    for k, v in attrs.items():
        setattr(m, k, v)

    def missing(attr):
        if attr.startswith("__"):
            raise AttributeError(attr)
        raise Unsupported("stub %s has no attribute %s" % (name, attr))
    m.__getattr__ = missing
    return m


class World:
    """One set of loaded /repo modules with their stand-ins."""

    def __init__(self, dirs=("transcoder",), stubs=None, builtin_overrides=None, repo=None):
        self.repo = repo or REPO
        self.dirs = [os.path.join(self.repo, d) for d in dirs]
        self.mods = {}
        self.sources = {}
        self.np = self._numpy()
        self.random = make_random()
        self.stubs = {"numpy": self.np, "functools": make_functools(), "enum": make_enum(),
                      "random": self.random}
        self.stubs.update(stubs or {})
        self.builtins = make_builtins(builtin_overrides)
        self.builtins["__import__"] = self._import
        self.builtins["open"] = (builtin_overrides or {}).get("open", self._open)

    def _numpy(self):
        m = types.ModuleType("numpy")
        for k, v in vars(snp).items():
            if not k.startswith("__"):
                setattr(m, k, v)
        m.int = sym_int
        m.float = sym_float
        m.bool = sym_bool
        m.object = object
        m.random = snp._Random()
        m.random_module = m.random

        def missing(name):
            if name.startswith("__"):
                raise AttributeError(name)
            raise Unsupported("numpy.%s" % name)
        m.__getattr__ = missing
        return m

    def _open(self, path, *a, **k):
        if isinstance(path, str) and not os.path.isabs(path):
            path = os.path.join(self.repo, path)
        return open(path, *a, **k)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            raise ImportError("relative import")
        top = name.split(".")[0]
        if top in self.stubs:
            m = self.stubs[top]
            if name != top:
                sub = self.stubs.get(name)
                if sub is None:
                    sub = m
                    for part in name.split(".")[1:]:
                        sub = getattr(sub, part)
                elif not hasattr(m, name.split(".")[1]):
                    setattr(m, name.split(".")[1], sub)
                return sub if fromlist else m
            return m
        if name in self.stubs:
            return self.stubs[name]
        m = self.load(name)
        if m is not None:
            return m
        return __import__(name, globals, locals, fromlist, level)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        for d in self.dirs:
            p = os.path.join(d, name.replace(".", "/") + ".py")
            if os.path.exists(p):
                break
        else:
            return None
        with open(p) as f:
            src = f.read()
        self.sources[name] = (p, src)
        tree = ast.parse(src, p)
        tree = ast.fix_missing_locations(_Tr().visit(tree))
        m = types.ModuleType(name)
        m.__file__ = p
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        try:
            exec(compile(tree, p, "exec"), m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        return m

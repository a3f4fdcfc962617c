"""A numpy look-alike whose array elements may be symbolic (numpy 1.22 semantics).

Arr wraps a real numpy *object* array (so views, slicing, reshaping and broadcasting are
numpy's own) plus a logical dtype.  Elements are Python ints / bools / floats, or
Num / SymBool / Flt when symbolic.  Arithmetic is done natively on the concrete part with the
result dtype numpy 1.22 would pick, and symbolically elsewhere.
"""
import builtins
import math as _math

import numpy as _np
import z3

from .core import (LazyNum, DT, DTS, BOOL, F32, F64, I64, U64, OBJ, promote, Num, SymBool, Flt,
                   Unsupported, Engine, eng, apply_dt, asnum, as_bool, b_all, b_any, b_not,
                   b_and, b_or, b_xor, cast, compare, ite, wrap_dt, float_mix, truediv, raw,
                   raw_neg, BITOPS, flt_compare)

_int, _bool, _float, _abs, _sum, _min, _max, _any, _all, _range = (
    builtins.int, builtins.bool, builtins.float, builtins.abs, builtins.sum, builtins.min,
    builtins.max, builtins.any, builtins.all, builtins.range)

newaxis = None
pi = _math.pi
inf = _math.inf
nan = _math.nan
e = _math.e
__version__ = "1.22.4"


class _Uninit:
    def __repr__(self):
        return "<uninit>"


UNINIT = _Uninit()


def _fresh_uninit(dt):
    e = eng()
    if dt.kind == "u":
        return e.fresh_unique("uninit", dt.bits, dt)
    if dt.kind == "i":
        return e.fresh_unique("uninit", dt.bits, dt, signed=True, lo=None)
    if dt.kind == "b":
        return e.fresh_unique("uninit", 1, None) != 0
    raise Unsupported("uninitialised %s" % dt.name)


# ------------------------------------------------------------------ dtypes

class dtype:
    def __new__(cls, d):
        if isinstance(d, dtype):
            return d
        self = object.__new__(cls)
        self.dt = todt(d)
        return self

    @property
    def name(self):
        return self.dt.name

    @property
    def itemsize(self):
        return self.dt.bits // 8

    @property
    def kind(self):
        return self.dt.kind

    @property
    def type(self):
        return globals()[{"bool": "bool_"}.get(self.dt.name, self.dt.name)]

    def __eq__(self, o):
        try:
            return todt(o) is self.dt
        except Exception:
            return False

    def __hash__(self):
        return hash(self.dt.name)

    def __repr__(self):
        return "dtype('%s')" % self.dt.name

    __str__ = lambda self: self.dt.name


class _DTMeta(type):
    def __call__(cls, v=0, *a, **k):
        if cls.dt is None:
            raise TypeError("cannot instantiate abstract %s" % cls.__name__)
        return make_scalar(v, cls.dt)

    def __instancecheck__(cls, o):
        if isinstance(o, Num):
            d = o.dt
        elif isinstance(o, SymBool):
            d = BOOL
        elif isinstance(o, Flt):
            d = o.dt
        elif type(o) is _float:
            d = F64
        else:
            return False
        if d is None:
            return False
        return d.kind in cls.kinds if cls.dt is None else d is cls.dt


def make_scalar(v, dt):
    if isinstance(v, Arr):
        return v.astype(dt) if v.a.ndim else cast(v._item(()), dt)
    if isinstance(v, str):
        v = _float(v) if dt.kind == "f" else _int(v)
    if isinstance(v, (list, tuple)):
        return asarray(v, dtype=dt)
    r = cast(v, dt)
    if isinstance(r, _bool):
        return SymBool(c=r)
    if type(r) is _int:
        return Num(None, r, r, dt)
    return r


class generic(metaclass=_DTMeta):
    dt = None
    kinds = "buif"


class number(generic):
    kinds = "uif"


class integer(number):
    kinds = "ui"


class unsignedinteger(integer):
    kinds = "u"


class signedinteger(integer):
    kinds = "i"


class floating(number):
    kinds = "f"


def _mk(name, base):
    return _DTMeta(name, (base,), {"dt": DTS[name], "kinds": DTS[name].kind})


uint8, uint16, uint32, uint64 = (_mk("uint%d" % b, unsignedinteger) for b in (8, 16, 32, 64))
int8, int16, int32, int64 = (_mk("int%d" % b, signedinteger) for b in (8, 16, 32, 64))
float32, float64, float16 = (_mk(n, floating) for n in ("float32", "float64", "float16"))
bool_ = _DTMeta("bool_", (generic,), {"dt": BOOL, "kinds": "b"})
bool8 = bool_
ubyte, ushort, uintc, ulonglong, uint, uintp = uint8, uint16, uint32, uint64, uint64, uint64
byte, short, intc, longlong, int_, intp = int8, int16, int32, int64, int64, int64
single, double, float_, half = float32, float64, float64, float16
object_ = None  # set by load.py users if ever needed

_STR = {"u1": "uint8", "u2": "uint16", "u4": "uint32", "u8": "uint64", "i1": "int8",
        "i2": "int16", "i4": "int32", "i8": "int64", "f4": "float32", "f8": "float64",
        "B": "uint8", "H": "uint16", "I": "uint32", "L": "uint64", "b": "int8", "h": "int16",
        "i": "int32", "l": "int64", "q": "int64", "Q": "uint64", "f": "float32", "d": "float64",
        "?": "bool", "b1": "bool", "int": "int64", "uint": "uint64", "float": "float64",
        "single": "float32", "double": "float64", "short": "int16", "ubyte": "uint8",
        "byte": "int8", "O": "object", "object": "object"}


def todt(d):
    if d is None:
        return F64
    if isinstance(d, DT):
        return d
    if isinstance(d, dtype):
        return d.dt
    if isinstance(d, _DTMeta):
        if d.dt is None:
            raise Unsupported("dtype %s" % d.__name__)
        return d.dt
    if isinstance(d, str):
        s = d
        if s[:1] in "<=|":
            s = s[1:]
        elif s[:1] == ">" and s[1:] not in ("u1", "i1", "b1"):
            raise Unsupported("big-endian dtype")
        elif s[:1] == ">":
            s = s[1:]
        s = s if s in DTS else _STR.get(s)
        if s is None or DTS[s].name == "float16":
            raise TypeError("data type %r not understood" % d)
        return DTS[s]
    if isinstance(d, type):
        if getattr(d, "_sym_builtin", None):
            d = d._sym_builtin
        if issubclass(d, _bool):
            return BOOL
        if issubclass(d, _int):
            return I64
        if issubclass(d, _float):
            return F64
        if d is object:
            return OBJ
    if isinstance(d, _np.dtype):
        return DTS[d.name]
    raise Unsupported("dtype %r" % (d,))


class _IInfo:
    def __init__(self, d):
        d = todt(d) if not isinstance(d, (Num, Arr)) else d.dt
        self.min, self.max, self.bits = d.lo, d.hi, d.bits


iinfo = _IInfo


class finfo:
    def __init__(self, d):
        f = _np.finfo("float32" if todt(d) is F32 else "float64")
        self.max, self.min, self.eps, self.tiny = (
            _float(f.max), _float(f.min), _float(f.eps), _float(f.tiny))


# ------------------------------------------------------------------ arrays

_SYM = (Num, LazyNum, SymBool, Flt, _Uninit)


def _symmask(a):
    """Flat positions of the symbolic elements of an object array."""
    return [i for i, x in enumerate(a.flat) if type(x) in _SYM]


_NAT = {}


def nat(dt):
    r = _NAT.get(dt.name)
    if r is None:
        r = _NAT[dt.name] = _np.dtype(dt.name)
    return r


def _norm(v, dt):
    """Element of an array of dtype dt: Python value if concrete."""
    if type(v) is _int or type(v) is _float or type(v) is _bool:
        return v
    if type(v) is LazyNum:
        return v
    if isinstance(v, Num):
        if v.t is None:
            if dt.kind == "b":
                return v.lo != 0
            return v.lo if dt.kind != "f" else _float(v.lo)
        return v
    if isinstance(v, SymBool):
        return v.c if v.c is not None else v
    if isinstance(v, (_np.bool_,)):
        return _bool(v)
    return v


def _scalar(v, dt):
    """Array element as the numpy scalar it would be."""
    if v is UNINIT:
        return _fresh_uninit(dt)
    if type(v) is _int:
        return Num(None, v, v, dt if dt.kind != "O" else None) if dt.kind != "O" else v
    if type(v) is _bool:
        return SymBool(c=v)
    if type(v) is _float:
        if dt is F32:
            return Flt.of(v, F32)
        return v
    if isinstance(v, Num) and v.dt is not dt:
        if type(v) is LazyNum:
            return v.retyped(dt if dt.kind != "O" else None)
        return Num(v.t, v.lo, v.hi, dt if dt.kind != "O" else None)
    return v


def _conv(v, dt):
    """Convert a scalar value into an element of dtype dt (C cast)."""
    if dt.kind == "O":
        return v
    t = type(v)
    if t is _int:
        if dt.kind == "b":
            return v != 0
        if dt.kind == "f":
            return _float(_np.float32(v)) if dt is F32 else _float(v)
        if dt.lo <= v <= dt.hi:
            return v
    elif t is _bool and dt.kind == "b":
        return v
    elif isinstance(v, Num) and v.dt is dt:
        return v if type(v) is LazyNum else v.lo if v.t is None else v
    return _norm(cast(v, dt), dt)


def _native(a, dt, sym):
    """Native numpy copy of an object array; symbolic positions hold zero."""
    if sym:
        a = a.copy()
        f = a.reshape(-1)
        for i in sym:
            f[i] = 0
        a = f.reshape(a.shape)
    if dt.kind == "f" or dt.kind == "b":
        return a.astype(nat(dt))
    try:
        return a.astype(nat(dt))
    except OverflowError:
        # negative into unsigned and the like: wrap
        m = 2 ** dt.bits
        out = _np.empty(a.shape, dtype=nat(dt))
        fl = out.reshape(-1)
        for i, x in enumerate(a.reshape(-1)):
            x = _int(x) & (m - 1)
            if dt.kind == "i" and x > dt.hi:
                x -= m
            fl[i] = x
        return out


class flatiter:
    def __init__(self, arr):
        self.arr = arr

    def __iter__(self):
        for x in self.arr.a.flat:
            yield _scalar(x, self.arr.dt)

    def __getitem__(self, i):
        return self.arr.reshape(-1)[i]

    def __setitem__(self, i, v):
        if self.arr.a.flags["C_CONTIGUOUS"]:
            Arr(self.arr.a.reshape(-1), self.arr.dt)[i] = v
        else:
            raise Unsupported("flat assignment")

    def __len__(self):
        return self.arr.a.size


def _isidx(x):
    return isinstance(x, (_int, Num, SymBool)) and not isinstance(x, _bool)


class _NDMeta(type):
    """np.ndarray: constructor of uninitialised arrays and the type of Arr."""

    def __call__(cls, *args, **kw):
        if cls is not Arr and cls is ndarray:
            return _ndarray_ctor(*args, **kw)
        return type.__call__(cls, *args, **kw)

    def __instancecheck__(cls, o):
        return type(o) is Arr or type(o) is SymTable


def _ndarray_ctor(shape, dtype=None, *a, **k):
    if a or k:
        raise Unsupported("ndarray constructor arguments")
    return empty(shape, dtype)


class ndarray(metaclass=_NDMeta):
    pass


class Arr:
    __slots__ = ("a", "dt")
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, a, dt):
        self.a = a
        self.dt = dt

    # -- basics

    @property
    def shape(self):
        return self.a.shape

    @shape.setter
    def shape(self, s):
        self.a.shape = s

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    @property
    def nbytes(self):
        return self.a.size * self.dt.bits // 8

    @property
    def itemsize(self):
        return self.dt.bits // 8

    @property
    def dtype(self):
        return dtype(self.dt)

    @property
    def T(self):
        return Arr(self.a.T, self.dt)

    @property
    def flat(self):
        return flatiter(self)

    @property
    def base(self):
        return self.a.base

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        if self.a.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in _range(self.a.shape[0]):
            yield self[i]

    def __repr__(self):
        return "Arr(%s, %s)" % (self.a.shape, self.dt.name)

    def __format__(self, spec):
        return repr(self)

    def __bool__(self):
        if self.a.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous")
        return _bool(_scalar(self.a.reshape(-1)[0], self.dt))

    def __index__(self):
        if self.a.size == 1 and self.dt.kind in "ui" and self.a.ndim == 0:
            return _scalar(self.a.reshape(-1)[0], self.dt).__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __int__(self):
        if self.a.size == 1:
            return _int(_scalar(self.a.reshape(-1)[0], self.dt))
        raise TypeError("only size-1 arrays can be converted to Python scalars")

    def __float__(self):
        return _float(self._one())

    def _one(self):
        if self.a.size != 1:
            raise TypeError("only size-1 arrays can be converted to Python scalars")
        return _scalar(self.a.reshape(-1)[0], self.dt)

    def _item(self, idx):
        return _scalar(self.a[idx], self.dt)

    def item(self, *args):
        if not args:
            v = self._one()
        elif len(args) == 1 and not isinstance(args[0], tuple):
            v = self.reshape(-1)[args[0]]
        else:
            v = self[args if len(args) > 1 else args[0]]
        return topy(v)

    def __contains__(self, v):
        return _bool(any(self == v))

    # -- indexing

    def _key(self, key):
        """Normalise a key for numpy.  Returns (key, has_bool_mask, symbolic lookup Arr)."""
        tup = key if isinstance(key, tuple) else (key,)
        out = []
        for k in tup:
            if k is None or k is Ellipsis or isinstance(k, slice):
                if isinstance(k, slice):
                    k = slice(*[None if z is None else z.__index__() for z in (k.start, k.stop, k.step)])
                out.append(k)
            elif isinstance(k, Arr):
                if k.dt.kind == "b":
                    out.append(_np.array([_bool(_scalar(x, BOOL)) for x in k.a.flat],
                                         dtype=_bool).reshape(k.a.shape))
                elif k.dt.kind in "ui":
                    out.append(_np.array([_scalar(x, k.dt).__index__() for x in k.a.flat],
                                         dtype=_np.int64).reshape(k.a.shape))
                elif k.a.size == 0:
                    out.append(_np.zeros(k.a.shape, dtype=_np.int64))
                else:
                    raise IndexError("arrays used as indices must be of integer (or boolean) type")
            elif isinstance(k, (list, range)) or (isinstance(k, tuple)):
                out.append(self._key(asarray(list(k)))[0][0] if len(k) else _np.zeros(0, dtype=_np.int64))
            elif isinstance(k, SymBool):
                out.append(_bool(k))
            elif isinstance(k, _bool):
                out.append(k)
            elif isinstance(k, (_int, Num)):
                out.append(k.__index__())
            elif isinstance(k, (_float, Flt)):
                raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis "
                                 "(`None`) and integer or boolean arrays are valid indices")
            elif hasattr(k, "__index__"):
                out.append(k.__index__())
            else:
                raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis "
                                 "(`None`) and integer or boolean arrays are valid indices")
        return tuple(out)

    def _symlookup(self, key):
        """Read of a small 1-d/row table at a symbolic index without forking, or None."""
        k = key
        if isinstance(k, tuple):
            if len(k) == 1:
                k = k[0]
            else:
                # leading concrete integer indices, last one symbolic
                if len(k) == self.a.ndim and _all(isinstance(z, (_int, Num)) and not isinstance(z, _bool) and (not isinstance(z, Num) or z.t is None) for z in k[:-1]) \
                        and ((isinstance(k[-1], Num) and k[-1].t is not None) or (isinstance(k[-1], Arr) and k[-1].dt.kind in "ui" and _symmask(k[-1].a))):
                    sub = Arr(self.a[tuple(z.__index__() for z in k[:-1])], self.dt)
                    return sub._symlookup(k[-1])
                return None
        if self.a.ndim != 1:
            return None
        if isinstance(k, Num) and k.t is not None:
            if self.a.size > 65536 and k.hi - k.lo > 65536:
                return None
            return self._lookup1(k)
        if isinstance(k, Arr) and k.dt.kind in "ui" and _symmask(k.a):
            out = _np.empty(k.a.shape, dtype=object)
            o, f = out.reshape(-1), k.a.reshape(-1)
            for i, x in enumerate(f):
                x = _scalar(x, k.dt)
                v = self._item((x.lo,)) if x.t is None else self._lookup1(x)
                o[i] = _norm(v, self.dt)
            return Arr(out, self.dt)
        return None

    def _lookup1(self, k):
        n = self.a.shape[0]
        if k.lo < -n or k.hi >= n:
            ok = b_and(k >= -n, k < n)
            if not _bool(ok):
                raise IndexError("index out of bounds for axis 0 with size %d" % n)
        lo, hi = _max(k.lo, -n), _min(k.hi, n - 1)
        vals = [_scalar(self.a[i], self.dt) for i in _range(lo, hi + 1)]
        r = lookup_tree(vals, raw("sub", k, Num.of(lo)))
        return r

    def __getitem__(self, key):
        s = self._symlookup(key)
        if s is not None:
            return s
        k = self._key(key)
        r = self.a[k if len(k) != 1 else k[0]]
        if isinstance(r, _np.ndarray):
            return Arr(r, self.dt)
        return _scalar(r, self.dt)

    def __setitem__(self, key, val):
        dt = self.dt
        tup = key if isinstance(key, tuple) else (key,)
        # boolean mask with symbolic entries and a scalar value: conditional store
        if len(tup) == 1 and isinstance(tup[0], Arr) and tup[0].dt.kind == "b" and _symmask(tup[0].a):
            m = tup[0]
            sc = val
            if isinstance(val, Arr) and val.a.size == 1:
                sc = val._one()
            if not isinstance(sc, Arr) and m.a.shape == self.a.shape:
                v = _conv(sc, dt)
                for idx in _np.ndindex(*self.a.shape):
                    c = m.a[idx]
                    if c is True:
                        self.a[idx] = v
                    elif c is False:
                        pass
                    else:
                        c = _scalar(c, BOOL)
                        self.a[idx] = _norm(ite(c, _scalar(v, dt), self._item(idx)), dt)
                return
        # scalar store at a symbolic position of one dimension: conditional stores
        if _isidx(tup[-1]) and isinstance(tup[-1], Num) and tup[-1].t is not None and \
                len(tup) == self.a.ndim and _all(_isidx(z) for z in tup) and \
                (isinstance(val, (_int, _float, Num, SymBool, Flt)) or (isinstance(val, Arr) and val.a.size == 1)):
            sc = val._one() if isinstance(val, Arr) else val
            v = _scalar(_conv(sc, dt), dt)
            row = self.a
            for z in tup[:-1]:
                row = row[z.__index__()]
            n = row.shape[0]
            i = tup[-1]
            if i.lo < -n or i.hi >= n:
                if not _bool(b_and(i >= -n, i < n)):
                    raise IndexError("index out of bounds for axis with size %d" % n)
            if i.lo < 0:
                i = asnum(ite(i < 0, i + n, i))
            for j in _range(_max(i.lo, 0), _min(i.hi, n - 1) + 1):
                c = as_bool(compare("eq", Num(i.t, i.lo, i.hi), j))
                row[j] = _norm(ite(c, v, _scalar(row[j], dt)), dt)
            return
        k = self._key(key)
        k = k if len(k) != 1 else k[0]
        if isinstance(val, (list, tuple)):
            val = asarray(val)
        if isinstance(val, SymTable):
            raise Unsupported("store of a table")
        if isinstance(val, Arr):
            if val.a.ndim == 0:
                val = val._item(())
            else:
                src = val.a
                if val.dt is not dt:
                    src = val.astype(dt).a
                elif _np.shares_memory(src, self.a):
                    src = src.copy()
                self.a[k] = src
                return
        v = _conv(val, dt)
        if isinstance(v, _Uninit):
            raise Unsupported("uninit store")
        tgt = self.a[k]
        if isinstance(tgt, _np.ndarray):
            cell = _np.empty((), dtype=object)
            cell[()] = v
            self.a[k] = cell
        else:
            self.a[k] = v

    # -- conversions

    def astype(self, d, order="K", casting="unsafe", subok=True, copy=True):
        dt = todt(d)
        if dt is self.dt:
            return Arr(self.a.copy(), dt) if copy else self
        sym = _symmask(self.a)
        if self.dt.kind == "O" or dt.kind == "O":
            out = self.a.copy()
            f = out.reshape(-1)
            for i in _range(f.size):
                f[i] = _conv(f[i], dt)
            return Arr(f.reshape(out.shape), dt)
        if self.dt.kind == "f" and dt.kind in "ui":
            # C casts of out-of-range floats: follow cast()
            out = _np.empty(self.a.shape, dtype=object)
            f = out.reshape(-1)
            for i, x in enumerate(self.a.reshape(-1)):
                f[i] = _norm(cast(_scalar(x, self.dt) if type(x) is not _float else x, dt), dt)
            return Arr(out, dt)
        n = _native(self.a, self.dt, sym).astype(nat(dt)).astype(object)
        if n.ndim == 0:
            n = _np.array(n, dtype=object)
        if sym:
            f, g = n.reshape(-1), self.a.reshape(-1)
            for i in sym:
                f[i] = _conv(_scalar(g[i], self.dt), dt)
            n = f.reshape(n.shape)
        return Arr(n, dt)

    def view(self, d=None, *a):
        if d is None or (isinstance(d, type) and d is ndarray):
            return Arr(self.a.view(), self.dt)
        dt = todt(d)
        if dt.bits == self.dt.bits and {dt.kind, self.dt.kind} <= {"u", "i"}:
            return self.astype(dt)  # copy: fine unless written through
        if dt.kind in "ui" and self.dt.kind in "ui" and dt.bits < self.dt.bits:
            return frombuffer_list(self._bytes(), dt).reshape(
                self.a.shape[:-1] + (self.a.shape[-1] * self.dt.bits // dt.bits,))
        if dt.kind in "ui" and self.dt.kind in "ui":
            return frombuffer_list(self._bytes(), dt).reshape(self.a.shape[:-1] + (-1,))
        raise Unsupported("view as %s" % dt.name)

    def _bytes(self):
        """Little-endian bytes of the elements, as a list of ints / Nums."""
        out = []
        for x in self.a.flat:
            x = _scalar(x, self.dt)
            if isinstance(x, SymBool):
                x = Num.of(x.num())
            if not isinstance(x, Num):
                raise Unsupported("bytes of floats")
            u = wrap_dt(x, DTS["uint%d" % self.dt.bits]) if self.dt.kind == "i" else x
            for i in _range(self.dt.bits // 8):
                b = raw("and", raw("shr", Num(u.t, u.lo, u.hi), Num.of(8 * i)), Num.of(255))
                out.append(b.lo if b.t is None else b)
        return out

    def tobytes(self, order="C"):
        from .load import SymBytes
        return SymBytes(self._bytes())

    tostring = tobytes

    def tofile(self, f, *a, **k):
        if hasattr(f, "write"):
            f.write(self.tobytes())
        else:
            raise Unsupported("tofile")

    def tolist(self):
        def rec(a):
            if a.ndim == 0:
                return topy(_scalar(a[()], self.dt))
            if a.ndim == 1:
                return [topy(_scalar(x, self.dt)) for x in a]
            return [rec(x) for x in a]
        return rec(self.a)

    def copy(self, order="C"):
        return Arr(self.a.copy(), self.dt)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def fill(self, v):
        self[...] = v

    def setflags(self, *a, **k):
        pass

    # -- structure

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = tuple(s.__index__() for s in shape)
        return Arr(self.a.reshape(shape, order=order), self.dt)

    def ravel(self, order="C"):
        return Arr(self.a.ravel(order=order), self.dt)

    def flatten(self, order="C"):
        return Arr(self.a.flatten(order=order), self.dt)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if axes == (None,):
            axes = ()
        return Arr(self.a.transpose(*axes), self.dt)

    def swapaxes(self, i, j):
        return Arr(self.a.swapaxes(i, j), self.dt)

    def squeeze(self, axis=None):
        return Arr(self.a.squeeze(axis), self.dt)

    def repeat(self, n, axis=None):
        return Arr(self.a.repeat(n, axis), self.dt)

    def take(self, idx, axis=None):
        return take(self, idx, axis)

    def nonzero(self):
        return nonzero(self)

    # -- reductions

    def any(self, axis=None, **k):
        return any(self, axis)

    def all(self, axis=None, **k):
        return all(self, axis)

    def sum(self, axis=None, dtype=None, **k):
        return sum(self, axis, dtype)

    def mean(self, axis=None, **k):
        return mean(self, axis)

    def max(self, axis=None, **k):
        return amax(self, axis)

    def min(self, axis=None, **k):
        return amin(self, axis)

    def argmax(self, axis=None):
        return argmax(self, axis)

    def argmin(self, axis=None):
        return argmin(self, axis)

    def argsort(self, axis=-1, kind=None, **k):
        return argsort(self, axis)

    def sort(self, axis=-1, **k):
        self[...] = sort(self, axis)

    def clip(self, lo=None, hi=None, out=None, **k):
        return clip(self, lo, hi, out)

    def cumsum(self, axis=None):
        return cumsum(self, axis)

    def round(self, *a):
        if self.dt.kind in "ui":
            return self.copy()
        raise Unsupported("round")

    # -- operators

    def __neg__(self):
        if self.dt.kind == "b":
            raise TypeError("The numpy boolean negative, the `-` operator, is not supported")
        return _map1(self, lambda n: -n, lambda x: -x, self.dt)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return absolute(self)

    def __invert__(self):
        return invert(self)

    def __truediv__(self, o):
        return ew("div", self, o)

    def __rtruediv__(self, o):
        return ew("div", o, self)

    def __divmod__(self, o):
        return self // o, self % o


for _o, _n in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("and", "and"), ("or", "or"),
               ("xor", "xor"), ("lshift", "shl"), ("rshift", "shr"), ("floordiv", "fdiv"),
               ("mod", "mod"), ("pow", "pow")):
    def _f(n):
        def f(self, o):
            return ew(n, self, o)

        def r(self, o):
            return ew(n, o, self)

        def i(self, o):
            return ew(n, self, o, out=self)
        return f, r, i
    _a, _b, _c = _f(_n)
    setattr(Arr, "__%s__" % _o, _a)
    setattr(Arr, "__r%s__" % _o, _b)
    setattr(Arr, "__i%s__" % _o, _c)
Arr.__itruediv__ = lambda self, o: ew("div", self, o, out=self)
for _o in ("eq", "ne", "lt", "le", "gt", "ge"):
    setattr(Arr, "__%s__" % _o, (lambda n: lambda self, o: cmp(n, self, o))(_o))


def topy(v):
    """numpy scalar -> Python scalar (tolist / item semantics)."""
    if isinstance(v, Num):
        return v.lo if v.t is None else Num(v.t, v.lo, v.hi, None)
    if isinstance(v, SymBool) and v.c is not None:
        return v.c
    return v


def lookup_tree(vals, k):
    """vals[k] as a balanced if-then-else tree; 0 <= k < len(vals)."""
    if k.t is None:
        return vals[k.lo]
    n = len(vals)
    bits = _max(1, (n - 1).bit_length())
    kt = k.term(_max(k.w(), bits + 1))
    vals = vals + [vals[-1]] * ((1 << bits) - n)
    for b in _range(bits):
        c = z3.Extract(b, b, kt) == 1
        nxt = []
        for i in _range(0, len(vals), 2):
            x, y = vals[i], vals[i + 1]
            if x is y or (type(x) is Num and type(y) is Num and x.t is None and y.t is None and x.lo == y.lo):
                nxt.append(x)
            else:
                nxt.append(ite(SymBool(c), y, x))
        vals = nxt
    return vals[0]


# ------------------------------------------------------------------ result dtypes

def _cat(dt):
    return {"b": 0, "u": 1, "i": 1, "f": 2, "O": 3}[dt.kind]


def _min_scalar(v):
    """(dtype, small_unsigned) of one concrete integer value."""
    if v >= 0:
        for b in (8, 16, 32, 64):
            if v < 2 ** b:
                return DTS["uint%d" % b], v < 2 ** (b - 1)
    else:
        for b in (8, 16, 32, 64):
            if v >= -2 ** (b - 1):
                return DTS["int%d" % b], False
    return OBJ, False


def _promote_val(adt, v):
    """numpy 1.22: array dtype combined with a scalar of integer value v."""
    m, small = _min_scalar(v)
    if m is OBJ:
        return OBJ
    if adt.kind == "i" and m.kind == "u" and small:
        m = DTS["int%d" % m.bits]
    return promote(adt, m)


def _scalar_info(s):
    """(kind category, full dtype) of a scalar operand."""
    if isinstance(s, (_bool, SymBool)):
        return 0, BOOL
    if isinstance(s, _float):
        return 2, F64
    if isinstance(s, Flt):
        return 2, s.dt
    n = asnum(s)
    if n is None:
        raise Unsupported("array operand %r" % type(s))
    if n.dt is not None:
        return 1, n.dt
    if -2 ** 63 <= n.lo and n.hi < 2 ** 63:
        return 1, I64
    if n.lo >= 0 and n.hi < 2 ** 64:
        return 1, U64
    return 3, OBJ


def result_dt(x, y):
    """Result dtype of a binary ufunc under numpy 1.22 value-based casting."""
    ax = isinstance(x, Arr) and x.a.ndim > 0
    ay = isinstance(y, Arr) and y.a.ndim > 0
    if isinstance(x, Arr) and not ax:
        x = x._item(())
    if isinstance(y, Arr) and not ay:
        y = y._item(())
    if ax and ay:
        return promote(x.dt, y.dt)
    if not ax and not ay:
        return promote(_scalar_info(x)[1], _scalar_info(y)[1])
    arr, s = (x, y) if ax else (y, x)
    c, full = _scalar_info(s)
    if full is OBJ:
        return OBJ
    if c > _cat(arr.dt):
        if c == 1 and arr.dt.kind == "b":
            return full
        if c == 2:
            # float scalar with integer array: min_scalar of the float is at most float16,
            # but kinds differ so the full dtype is used
            return promote(arr.dt, full)
        return promote(arr.dt, full)
    if c < _cat(arr.dt):
        return arr.dt
    if c == 0:
        return BOOL
    if c == 2:
        # same kind: value based.  Finite values of ordinary size fit float16/float32
        if isinstance(s, _float) and arr.dt is F32:
            if s == s and _abs(s) != inf and _abs(s) > 3.4e38:
                return F64
            return F32
        return arr.dt
    n = asnum(s)
    cand = {}
    bounds = sorted({n.lo, n.hi} | {v for v in (-2 ** 31 - 1, -2 ** 31, -2 ** 15 - 1, -2 ** 15, -129, -128, -1, 0, 127, 128, 255, 256,
                                                2 ** 15 - 1, 2 ** 15, 2 ** 16 - 1, 2 ** 16, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63)
                                    if n.lo <= v <= n.hi})
    for v in bounds:
        cand.setdefault(_promote_val(arr.dt, v), []).append(v)
    if len(cand) == 1:
        return next(iter(cand))
    # the result dtype depends on the value: decide it
    prev = None
    for i in _range(len(bounds) - 1):
        d1, d2 = _promote_val(arr.dt, bounds[i]), _promote_val(arr.dt, bounds[i + 1])
        if d1 is not d2:
            if _bool(n <= bounds[i]):
                return d1
    return _promote_val(arr.dt, bounds[-1])


def result_type(*xs):
    r = None
    for x in xs:
        d = x.dt if isinstance(x, Arr) else (_scalar_info(x)[1] if isinstance(x, (Num, SymBool, Flt, _int, _float)) else todt(x))
        r = d if r is None else promote(r, d)
    return dtype(r)


def promote_types(a, b):
    return dtype(promote(todt(a), todt(b)))


# ------------------------------------------------------------------ elementwise

def _obj(x):
    """Object array of an operand (0-d for scalars)."""
    if isinstance(x, Arr):
        return x.a
    o = _np.empty((), dtype=object)
    o[()] = _norm(x, BOOL if isinstance(x, SymBool) else I64)
    return o


def _opdt(x):
    return x.dt if isinstance(x, Arr) else _scalar_info(x)[1]


_NATOPS = {
    "add": _np.add, "sub": _np.subtract, "mul": _np.multiply, "and": _np.bitwise_and,
    "or": _np.bitwise_or, "xor": _np.bitwise_xor, "shl": _np.left_shift,
    "shr": _np.right_shift, "fdiv": _np.floor_divide, "mod": _np.remainder, "pow": _np.power,
    "div": _np.true_divide}


def _conv_operand(x):
    if isinstance(x, SymTable):
        raise Unsupported("arithmetic on a whole symbolic table")
    if isinstance(x, (list, tuple)):
        return asarray(x)
    if isinstance(x, (Arr, Num, SymBool, Flt, _int, _float)):
        return x
    if isinstance(x, _np.generic):
        return x.item()
    if hasattr(x, "num"):
        return x.num()
    return None


def ew(op, x, y, out=None):
    x, y = _conv_operand(x), _conv_operand(y)
    if x is None or y is None:
        return NotImplemented
    if not isinstance(x, Arr) and not isinstance(y, Arr):
        from .core import binop
        r = truediv(x, y) if op == "div" else binop(op, x, y)
        return r
    rdt = result_dt(x, y)
    if rdt.kind == "b":
        if op == "add":
            op = "or"
        elif op == "mul":
            op = "and"
        elif op == "sub":
            raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
        elif op not in ("and", "or", "xor"):
            rdt = DTS["int8"]
    if op == "div" and rdt.kind in "buiO":
        rdt = F64
    if rdt.kind == "f" and op in BITOPS:
        raise TypeError("ufunc 'bitwise' not supported for the input types (%s, %s)" % (_opdt(x), _opdt(y)))
    r = _ew(op, x, y, rdt)
    if out is not None:
        _same_kind(rdt, out.dt, op)
        if r.a.shape != out.a.shape:
            raise ValueError("non-broadcastable output operand")
        out.a[...] = r.astype(out.dt).a if r.dt is not out.dt else r.a
        return out
    if r.a.ndim == 0:
        return _scalar(r.a[()], r.dt)
    return r


def _same_kind(src, dst, op):
    if src is dst:
        return
    order = {"b": 0, "u": 1, "i": 2, "f": 3, "O": 4}
    if order[src.kind] > order[dst.kind]:
        raise TypeError("Cannot cast ufunc %r output from dtype('%s') to dtype('%s') with casting rule 'same_kind'" % (op, src.name, dst.name))


def _ew(op, x, y, rdt):
    ox, oy = _obj(x), _obj(y)
    ox, oy = _np.broadcast_arrays(ox, oy)
    sx, sy = set(_symmask(ox)), set(_symmask(oy))
    sym = sorted(sx | sy)
    if rdt.kind == "O":
        sym = list(_range(ox.size))
    n = ox.size
    res = None
    if len(sym) < n:
        nx, ny = _native(ox, rdt, sorted(sx)), _native(oy, rdt, sorted(sy))
        if sym and op in ("fdiv", "mod", "div"):
            ny.reshape(-1)[sym] = 1
        if op in ("fdiv", "mod") and rdt.kind in "ui" and _np.any(ny == 0):
            raise Unsupported("integer division by zero in an array")
        if op == "pow" and rdt.kind in "ui" and sym:
            ny.reshape(-1)[sym] = 0
        if op in ("shl", "shr") and rdt.kind in "ui":
            if _np.any(ny >= rdt.bits) or (rdt.kind == "i" and _np.any(ny < 0)):
                raise Unsupported("array shift by more than the width")
        with _np.errstate(all="ignore"):
            res = _NATOPS[op](nx, ny)
        assert res.dtype == nat(rdt), (op, res.dtype, rdt)
        res = res.astype(object)
    if res is None:
        res = _np.empty(ox.shape, dtype=object)
    if res.ndim == 0 and not isinstance(res, _np.ndarray):
        z = _np.empty((), dtype=object)
        z[()] = res
        res = z
    if sym:
        f = res.reshape(-1)
        dx, dy = _opdt(x), _opdt(y)
        fx, fy = ox.reshape(-1), oy.reshape(-1)
        for i in sym:
            a, b = _scalar(fx[i], dx), _scalar(fy[i], dy)
            f[i] = _norm(_scalar_op(op, a, b, rdt), rdt)
        res = f.reshape(res.shape)
    return Arr(res, rdt)


def _scalar_op(op, a, b, rdt):
    if rdt.kind == "b":
        a, b = as_bool(a), as_bool(b)
        return {"and": b_and, "or": b_or, "xor": b_xor}[op](a, b)
    if rdt.kind == "f":
        a, b = cast(a, rdt), cast(b, rdt)
        return float_mix("div" if op == "div" else op, a, b, rdt)
    return apply_dt(op, asnum(a), asnum(b), rdt)


_CMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b,
        "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}


def cmp(op, x, y):
    x, y = _conv_operand(x), _conv_operand(y)
    if x is None or y is None:
        if op in ("eq", "ne"):
            return op == "ne"
        return NotImplemented
    if not isinstance(x, Arr) and not isinstance(y, Arr):
        return _CMP[op](x, y)
    ox, oy = _obj(x), _obj(y)
    try:
        ox, oy = _np.broadcast_arrays(ox, oy)
    except ValueError:
        if op in ("eq", "ne"):
            return op == "ne"
        raise
    sym = sorted(set(_symmask(ox)) | set(_symmask(oy)))
    if len(sym) < ox.size:
        if sym:
            cx, cy = ox.copy(), oy.copy()
            cx.reshape(-1)[sym] = 0
            cy.reshape(-1)[sym] = 0
            fx = cx.reshape(-1)
        else:
            cx, cy = ox, oy
        res = _CMP[op](cx, cy)
        res = _np.asarray(res).astype(object)
    else:
        res = _np.empty(ox.shape, dtype=object)
    if sym:
        f = res.reshape(-1)
        dx, dy = _opdt(x), _opdt(y)
        fx, fy = ox.reshape(-1), oy.reshape(-1)
        for i in sym:
            a, b = _scalar(fx[i], dx), _scalar(fy[i], dy)
            if isinstance(a, SymBool) != isinstance(b, SymBool):
                a, b = asnum(a), asnum(b)
            f[i] = _norm(as_bool(_CMP[op](a, b)), BOOL)
        res = f.reshape(res.shape)
    if res.ndim == 0:
        return _scalar(res[()], BOOL)
    return Arr(res, BOOL)


def _map1(x, nf, sf, rdt):
    sym = _symmask(x.a)
    if len(sym) < x.a.size:
        with _np.errstate(all="ignore"):
            res = nf(_native(x.a, x.dt, sym))
        res = _np.asarray(res).astype(nat(rdt)).astype(object)
        if not isinstance(res, _np.ndarray):
            z = _np.empty((), dtype=object)
            z[()] = res
            res = z
    else:
        res = _np.empty(x.a.shape, dtype=object)
    if sym:
        f, g = res.reshape(-1), x.a.reshape(-1)
        for i in sym:
            f[i] = _norm(sf(_scalar(g[i], x.dt)), rdt)
        res = f.reshape(res.shape)
    return Arr(res, rdt)


def _wrap_out(f):
    def g(x, y, out=None, **k):
        if k.get("where", True) is not True or k.get("dtype") is not None:
            raise Unsupported("ufunc keyword")
        r = f(x, y)
        if out is not None:
            if isinstance(out, tuple):
                out = out[0]
            out[...] = r
            return out
        return r
    return g


add = _wrap_out(lambda x, y: ew("add", x, y))
subtract = _wrap_out(lambda x, y: ew("sub", x, y))
multiply = _wrap_out(lambda x, y: ew("mul", x, y))
bitwise_and = _wrap_out(lambda x, y: ew("and", x, y))
bitwise_or = _wrap_out(lambda x, y: ew("or", x, y))
bitwise_xor = _wrap_out(lambda x, y: ew("xor", x, y))
left_shift = _wrap_out(lambda x, y: ew("shl", x, y))
right_shift = _wrap_out(lambda x, y: ew("shr", x, y))
floor_divide = _wrap_out(lambda x, y: ew("fdiv", x, y))
mod = remainder = _wrap_out(lambda x, y: ew("mod", x, y))
divide = true_divide = _wrap_out(lambda x, y: ew("div", x, y))
power = _wrap_out(lambda x, y: ew("pow", x, y))
equal = _wrap_out(lambda x, y: cmp("eq", x, y))
not_equal = _wrap_out(lambda x, y: cmp("ne", x, y))
less = _wrap_out(lambda x, y: cmp("lt", x, y))
less_equal = _wrap_out(lambda x, y: cmp("le", x, y))
greater = _wrap_out(lambda x, y: cmp("gt", x, y))
greater_equal = _wrap_out(lambda x, y: cmp("ge", x, y))


def _tobool(x):
    x = asarray(x)
    return x.astype(BOOL)


def _unscalar(r):
    return r._item(()) if isinstance(r, Arr) and r.a.ndim == 0 else r


logical_and = _wrap_out(lambda x, y: _unscalar(_ew("and", _tobool(x), _tobool(y), BOOL)))
logical_or = _wrap_out(lambda x, y: _unscalar(_ew("or", _tobool(x), _tobool(y), BOOL)))
logical_xor = _wrap_out(lambda x, y: _unscalar(_ew("xor", _tobool(x), _tobool(y), BOOL)))


def logical_not(x):
    return _unscalar(invert(_tobool(x)))


def invert(x):
    if not isinstance(x, Arr):
        return ~x
    if x.dt.kind == "b":
        return _map1(x, _np.logical_not, lambda v: b_not(as_bool(v)), BOOL)
    if x.dt.kind == "f":
        raise TypeError("ufunc 'invert' not supported for the input types")
    return _map1(x, _np.invert, lambda v: ~v, x.dt)


bitwise_not = invert


def negative(x):
    return -x


def absolute(x):
    if not isinstance(x, Arr):
        return _abs(x)
    return _map1(x, _np.abs, _abs, x.dt)


abs = fabs = absolute


def sign(x):
    if not isinstance(x, Arr):
        return ite(x > 0, 1, ite(x < 0, -1, 0))
    return _map1(x, _np.sign, lambda v: cast(ite(v > 0, 1, ite(v < 0, -1, 0)), x.dt), x.dt)


FLOAT_FORKS = False


def _minmax(name, x, y):
    lt = name == "min"

    def pick(a, b, rdt):
        a, b = cast(a, rdt), cast(b, rdt)
        if rdt.kind == "f":
            fa, fb = Flt.of(a, rdt), Flt.of(b, rdt)
            # numpy propagates NaN
            c = z3.fpLEQ(fa.t, fb.t) if lt else z3.fpGEQ(fa.t, fb.t)
            c = z3.Or(z3.fpIsNaN(fa.t), c)
            if FLOAT_FORKS:
                return Flt(fa.t if SymBool(c) else fb.t, rdt)
            return Flt(z3.If(c, fa.t, fb.t), rdt)
        a, b = asnum(a), asnum(b)
        return ite((a <= b) if lt else (a >= b), a, b)
    x, y = _conv_operand(x), _conv_operand(y)
    if not isinstance(x, Arr) and not isinstance(y, Arr):
        rdt = promote(_scalar_info(x)[1], _scalar_info(y)[1])
        return make_scalar(pick(x, y, rdt), rdt)
    rdt = result_dt(x, y)
    ox, oy = _np.broadcast_arrays(_obj(x), _obj(y))
    out = _np.empty(ox.shape, dtype=object)
    f, fx, fy = out.reshape(-1), ox.reshape(-1), oy.reshape(-1)
    dx, dy = _opdt(x), _opdt(y)
    for i in _range(f.size):
        a, b = fx[i], fy[i]
        if type(a) in (_int, _float) and type(b) in (_int, _float):
            if a != a or b != b:
                f[i] = nan
            else:
                f[i] = _conv(_min(a, b) if lt else _max(a, b), rdt)
        else:
            f[i] = _norm(pick(_scalar(a, dx), _scalar(b, dy), rdt), rdt)
    return _unscalar(Arr(out, rdt))


minimum = _wrap_out(lambda x, y: _minmax("min", x, y))
maximum = _wrap_out(lambda x, y: _minmax("max", x, y))
fmin, fmax = minimum, maximum


def clip(x, a_min=None, a_max=None, out=None, **k):
    r = x
    if a_min is not None:
        r = maximum(r, a_min)
    if a_max is not None:
        r = minimum(r, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


def where(c, *args):
    c = asarray(c)
    if not args:
        return nonzero(c)
    x, y = _conv_operand(args[0]), _conv_operand(args[1])
    rdt = result_dt(x, y)
    c = c.astype(BOOL)
    oc, ox, oy = _np.broadcast_arrays(c.a, _obj(x), _obj(y))
    out = _np.empty(oc.shape, dtype=object)
    f, fc, fx, fy = (z.reshape(-1) for z in (out, oc, ox, oy))
    dx, dy = _opdt(x), _opdt(y)
    for i in _range(f.size):
        b = fc[i]
        if b is True:
            f[i] = _conv(_scalar(fx[i], dx) if type(fx[i]) in _SYM else fx[i], rdt)
        elif b is False:
            f[i] = _conv(_scalar(fy[i], dy) if type(fy[i]) in _SYM else fy[i], rdt)
        else:
            p, q = cast(_scalar(fx[i], dx), rdt), cast(_scalar(fy[i], dy), rdt)
            f[i] = _norm(ite(_scalar(b, BOOL), p, q), rdt)
    return _unscalar(Arr(out, rdt))


def select(conds, choices, default=0):
    r = default
    for c, ch in reversed(list(zip(conds, choices))):
        r = where(c, ch, r)
    return r


def sqrt(x):
    raise Unsupported("sqrt")


log = log2 = exp = sin = cos = sqrt


def floor(x):
    if isinstance(x, Arr) and x.dt.kind in "ui":
        return x.astype(F64)
    return _rint(x, z3.RTN(), _math.floor)


def ceil(x):
    return _rint(x, z3.RTP(), _math.ceil)


def trunc(x):
    return _rint(x, z3.RTZ(), _math.trunc)


fix = trunc


def rint(x):
    return _rint(x, z3.RNE(), lambda v: round_half_even(v))


def round_half_even(v):
    return builtins.round(v)


def around(x, decimals=0):
    if decimals:
        raise Unsupported("round to decimals")
    return rint(x)


round_ = around
round = around


def _rint(x, rm, pf):
    def one(v):
        if isinstance(v, Flt):
            return Flt(z3.fpRoundToIntegral(rm, v.t), v.dt)
        if isinstance(v, _float):
            if v != v or v in (inf, -inf):
                return v
            return _float(pf(v))
        return cast(v, F64)
    if isinstance(x, Arr):
        out = _np.empty(x.a.shape, dtype=object)
        f = out.reshape(-1)
        for i, v in enumerate(x.a.reshape(-1)):
            f[i] = one(v)
        return Arr(out, x.dt if x.dt.kind == "f" else F64)
    return one(x)


def isnan(x):
    def one(v):
        if isinstance(v, Flt):
            return SymBool(z3.fpIsNaN(v.t))
        return SymBool(c=(isinstance(v, _float) and v != v))
    return _pred(x, one)


def isfinite(x):
    def one(v):
        if isinstance(v, Flt):
            return SymBool(z3.Not(z3.Or(z3.fpIsNaN(v.t), z3.fpIsInf(v.t))))
        return SymBool(c=not (isinstance(v, _float) and (v != v or v in (inf, -inf))))
    return _pred(x, one)


def isinf(x):
    def one(v):
        if isinstance(v, Flt):
            return SymBool(z3.fpIsInf(v.t))
        return SymBool(c=isinstance(v, _float) and v in (inf, -inf))
    return _pred(x, one)


def nan_to_num(x, *a, **k):
    raise Unsupported("nan_to_num")


def _pred(x, one):
    if not isinstance(x, Arr):
        return one(x)
    out = _np.empty(x.a.shape, dtype=object)
    f = out.reshape(-1)
    for i, v in enumerate(x.a.reshape(-1)):
        f[i] = _norm(one(v), BOOL)
    return Arr(out, BOOL)


# ------------------------------------------------------------------ creation

def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(x.__index__() for x in s)
    if isinstance(s, _float) and s.is_integer():
        raise TypeError("'float' object cannot be interpreted as an integer")
    return (s.__index__(),)


def full(shape, fill_value, dtype=None, order="C"):
    if dtype is None:
        dt = _scalar_info(fill_value)[1] if not isinstance(fill_value, Arr) else fill_value.dt
    else:
        dt = todt(dtype)
    shape = _shape(shape)
    a = _np.empty(shape, dtype=object)
    r = Arr(a, dt)
    r[...] = fill_value
    return r


def zeros(shape, dtype=None, order="C"):
    dt = todt(dtype)
    a = _np.empty(_shape(shape), dtype=object)
    a[...] = {"f": 0.0, "b": False}.get(dt.kind, 0)
    return Arr(a, dt)


def ones(shape, dtype=None, order="C"):
    dt = todt(dtype)
    a = _np.empty(_shape(shape), dtype=object)
    a[...] = {"f": 1.0, "b": True}.get(dt.kind, 1)
    return Arr(a, dt)


def empty(shape, dtype=None, order="C"):
    dt = todt(dtype)
    a = _np.empty(_shape(shape), dtype=object)
    if dt.kind == "f":
        a[...] = 0.0
    else:
        a[...] = UNINIT
    return Arr(a, dt)


def zeros_like(x, dtype=None, **k):
    return zeros(x.shape, dtype if dtype is not None else x.dt)


def ones_like(x, dtype=None, **k):
    return ones(x.shape, dtype if dtype is not None else x.dt)


def empty_like(x, dtype=None, **k):
    return empty(x.shape, dtype if dtype is not None else x.dt)


def full_like(x, v, dtype=None, **k):
    return full(x.shape, v, dtype if dtype is not None else x.dt)


def arange(*args, dtype=None, **k):
    args = list(args)
    for i, z in enumerate(args):
        if isinstance(z, (Num, SymBool)):
            args[i] = z.__index__()
    if dtype is None:
        dt = F64 if _any(isinstance(z, _float) for z in args) else I64
    else:
        dt = todt(dtype)
    r = _np.arange(*args, dtype=nat(dt))
    return Arr(r.astype(object), dt)


def linspace(*a, **k):
    return Arr(_np.linspace(*[_float(z) if not isinstance(z, _int) else z for z in a]).astype(object), F64)


def eye(n, *a, dtype=None, **k):
    dt = todt(dtype)
    return Arr(_np.eye(n.__index__(), dtype=nat(dt)).astype(object), dt)


identity = eye


def asarray(x, dtype=None, order=None, copy=None):
    if isinstance(x, (Arr, SymTable)):
        if dtype is not None and todt(dtype) is not x.dt:
            return x.astype(dtype)
        return x
    return array(x, dtype=dtype)


asanyarray = ascontiguousarray = asfortranarray = asarray


def array(x, dtype=None, copy=True, order=None, ndmin=0, subok=False):
    from .load import SymBytes
    if isinstance(x, SymTable):
        return x.copy()
    if isinstance(x, Arr):
        r = x.astype(dtype) if dtype is not None else x.copy()
    else:
        if isinstance(x, (range, map, filter, zip)) or hasattr(x, "__next__"):
            x = list(x)
        if isinstance(x, (bytes, bytearray, SymBytes)):
            raise Unsupported("array of bytes")
        r = _from_nested(x, dtype)
    if ndmin > r.a.ndim:
        r = r.reshape((1,) * (ndmin - r.a.ndim) + r.a.shape)
    return r


def _from_nested(x, dtype):
    def shape(v):
        if isinstance(v, Arr):
            return v.a.shape
        if isinstance(v, (list, tuple, range)):
            if len(v) == 0:
                return (0,)
            s = shape(v[0])
            for w in v[1:]:
                if shape(w) != s:
                    raise Unsupported("ragged array")
            return (len(v),) + s
        return ()
    sh = shape(x)
    leaves = []

    def walk(v):
        if isinstance(v, Arr):
            leaves.extend(_scalar(z, v.dt) for z in v.a.flat)
        elif isinstance(v, (list, tuple, range)):
            for w in v:
                walk(w)
        else:
            leaves.append(v)
    walk(x)
    if dtype is not None:
        dt = todt(dtype)
    elif not leaves:
        dt = F64
    else:
        dt = None
        for v in leaves:
            if v is None or isinstance(v, str):
                dt = OBJ
                break
            d = _scalar_info(v)[1] if not hasattr(v, "_sym_obj") else OBJ
            dt = d if dt is None else (OBJ if OBJ in (d, dt) else promote(dt, d))
    a = _np.empty(sh, dtype=object)
    f = a.reshape(-1)
    for i, v in enumerate(leaves):
        f[i] = _conv(v, dt)
    return Arr(f.reshape(sh), dt)


def copy(x, *a, **k):
    return asarray(x).copy()


def frombuffer_list(bs, dt):
    n = dt.bits // 8
    if len(bs) % n:
        raise ValueError("buffer size must be a multiple of element size")
    out = _np.empty((len(bs) // n,), dtype=object)
    for i in _range(len(out)):
        ch = bs[i * n:(i + 1) * n]
        if _all(type(c) is _int for c in ch):
            v = _int.from_bytes(_bytes(ch), "little", signed=dt.kind == "i")
            out[i] = v
        else:
            t = z3.Concat(*[Num.of(c).term(9) for c in reversed(ch)]) if False else None
            ts = [z3.Extract(7, 0, Num.of(c).term(9)) for c in reversed(ch)]
            t = z3.Concat(*ts) if len(ts) > 1 else ts[0]
            if dt.kind == "u":
                t = z3.ZeroExt(1, t)
            out[i] = Num(t, dt.lo, dt.hi, dt)
    return Arr(out, dt)


_bytes = builtins.bytes


def frombuffer(buf, dtype=None, count=-1, offset=0):
    from .load import SymBytes
    dt = todt(dtype)
    if isinstance(buf, RawArr):
        if dt is not buf.arr.dt:
            raise Unsupported("frombuffer dtype")
        return buf.arr.copy()
    if isinstance(buf, SymBytes):
        bs = list(buf.b)
    else:
        bs = list(buf)
    bs = bs[offset:]
    if count >= 0:
        bs = bs[:count * dt.bits // 8]
    return frombuffer_list(bs, dt)


class RawArr:
    """A buffer whose content is given as an array (used by stubs)."""

    def __init__(self, arr):
        self.arr = arr

    def __len__(self):
        return self.arr.a.size * self.arr.dt.bits // 8

    def __iter__(self):
        return iter(self.arr._bytes())


def fromiter(it, dtype=None, count=-1):
    return array(list(it), dtype=dtype)


def fromfile(f, dtype=None, *a, **k):
    raise Unsupported("fromfile is not stubbed here")


def load(f, *a, **k):
    raise Unsupported("load is not stubbed here")


def save(*a, **k):
    raise Unsupported("save is not stubbed here")


savez = savez_compressed = save


# ------------------------------------------------------------------ structure

def _as(x):
    x = asarray(x)
    if isinstance(x, SymTable):
        raise Unsupported("structural operation on a symbolic table")
    return x


def roll(x, shift, axis=None):
    x = _as(x)
    if isinstance(shift, (tuple, list)):
        shift = tuple(s.__index__() for s in shift)
    else:
        shift = shift.__index__()
    return Arr(_np.roll(x.a, shift, axis), x.dt)


def _cat_arrays(f, xs, **k):
    xs = [_as(x) for x in xs]
    dt = None
    for x in xs:
        dt = x.dt if dt is None else promote(dt, x.dt)
    return Arr(f([x.a if x.dt is dt else x.astype(dt).a for x in xs], **k), dt)


def concatenate(xs, axis=0, **k):
    return _cat_arrays(_np.concatenate, xs, axis=axis)


def stack(xs, axis=0, **k):
    return _cat_arrays(_np.stack, xs, axis=axis)


def vstack(xs):
    return _cat_arrays(_np.vstack, xs)


def hstack(xs):
    return _cat_arrays(_np.hstack, xs)


def dstack(xs):
    return _cat_arrays(_np.dstack, xs)


def column_stack(xs):
    return _cat_arrays(_np.column_stack, xs)


row_stack = vstack


def append(x, v, axis=None):
    return _cat_arrays(lambda l: _np.append(l[0], l[1], axis), [x, v])


def _struct(name):
    f = getattr(_np, name)

    def g(x, *a, **k):
        x = _as(x)
        a = tuple(z.__index__() if isinstance(z, Num) else z for z in a)
        r = f(x.a, *a, **k)
        if isinstance(r, (list, tuple)):
            return [Arr(z, x.dt) for z in r]
        return Arr(r, x.dt)
    g.__name__ = name
    return g


for _n in ("reshape", "ravel", "transpose", "swapaxes", "squeeze", "tile", "repeat", "flip",
           "fliplr", "flipud", "expand_dims", "broadcast_to", "atleast_1d", "atleast_2d",
           "split", "array_split", "hsplit", "vsplit", "moveaxis", "rollaxis", "rot90",
           "resize", "diagonal", "delete", "triu", "tril"):
    globals()[_n] = _struct(_n)


def pad(x, w, mode="constant", constant_values=0, **k):
    if mode != "constant":
        raise Unsupported("pad mode")
    x = _as(x)
    return Arr(_np.pad(x.a, w, constant_values=_conv(constant_values, x.dt)), x.dt)


def broadcast_arrays(*xs):
    xs = [_as(x) for x in xs]
    return [Arr(r, x.dt) for r, x in zip(_np.broadcast_arrays(*[x.a for x in xs]), xs)]


def meshgrid(*xs, **k):
    xs = [_as(x) for x in xs]
    return [Arr(r, x.dt) for r, x in zip(_np.meshgrid(*[x.a for x in xs], **k), xs)]


def indices(dims, dtype=None):
    return Arr(_np.indices(dims).astype(object), I64)


def ndindex(*a):
    return _np.ndindex(*a)


def ndenumerate(x):
    for i, v in _np.ndenumerate(_as(x).a):
        yield i, _scalar(v, x.dt)


def ix_(*xs):
    r = []
    n = len(xs)
    for i, x in enumerate(xs):
        x = asarray(x)
        if x.dt.kind == "b":
            x = nonzero(x)[0]
        sh = [1] * n
        sh[i] = -1
        r.append(x.reshape(sh))
    return tuple(r)


def take(x, idx, axis=None, **k):
    x = asarray(x)
    if axis is None:
        return x.reshape(-1)[idx if not isinstance(idx, (list, tuple)) else asarray(idx)]
    sl = [slice(None)] * x.ndim
    sl[axis] = idx
    return x[tuple(sl)]


def put(x, idx, v, **k):
    x.flat[idx] = v


def copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = globals()["where"](where, src, dst).astype(dst.dt)


def putmask(x, m, v):
    if isinstance(v, Arr) and v.ndim:
        x[...] = where(m, v, x).astype(x.dt)
    else:
        x[m] = v


def place(x, m, v):
    putmask(x, m, v)


def may_share_memory(a, b):
    return _np.may_share_memory(a.a, b.a)


shares_memory = may_share_memory


def ndim(x):
    return asarray(x).ndim


def shape(x):
    return asarray(x).shape


def size(x):
    return asarray(x).size


def isscalar(x):
    return isinstance(x, (Num, SymBool, Flt, _int, _float, str))


def unravel_index(i, sh):
    r = []
    for d in reversed(sh):
        r.append(i % d)
        i = i // d
    return tuple(reversed(r))


def ravel_multi_index(ix, sh):
    r = 0
    for i, d in zip(ix, sh):
        r = r * d + i
    return r


# ------------------------------------------------------------------ reductions and searches

def _axis(f, x, axis, keepdims=False):
    if axis is None:
        return f(x.reshape(-1))
    ax = axis % x.ndim
    m = _np.moveaxis(x.a, ax, -1)
    out = None
    sh = m.shape[:-1]
    res = []
    rdt = None
    for idx in _np.ndindex(*sh):
        v = f(Arr(m[idx], x.dt))
        res.append(v)
    return array(res).reshape(sh) if sh else res[0]


def any(x, axis=None, **k):
    x = asarray(x)
    return _axis(lambda v: _b(b_any([as_bool(cast(_scalar(z, v.dt) if type(z) in _SYM else z, BOOL)) for z in v.a])), x, axis)


def all(x, axis=None, **k):
    x = asarray(x)
    return _axis(lambda v: _b(b_all([as_bool(cast(_scalar(z, v.dt) if type(z) in _SYM else z, BOOL)) for z in v.a])), x, axis)


def _b(x):
    return x


alltrue = all
sometrue = any


def sum(x, axis=None, dtype=None, **k):
    x = asarray(x)
    dt = todt(dtype) if dtype is not None else (
        I64 if x.dt.kind in "bi" else U64 if x.dt.kind == "u" else x.dt)

    def f(v):
        tot, r = 0, None
        if dt.kind == "f":
            r = 0.0
            for z in v.a:
                r = float_mix("add", r, _scalar(z, v.dt) if type(z) in _SYM else z, dt)
            return r
        for z in v.a:
            if type(z) in _SYM:
                z = asnum(_scalar(z, v.dt))
                r = z if r is None else raw("add", r, z)
            else:
                tot += z
        n = Num.of(tot)
        if r is not None:
            n = raw("add", r, n)
        return wrap_dt(n, dt)
    return _axis(f, x, axis)


def prod(x, axis=None, dtype=None, **k):
    x = asarray(x)
    r = Num(None, 1, 1, I64)
    for z in x.flat:
        r = r * z
    return r


def cumsum(x, axis=None, **k):
    x = asarray(x)
    if x.ndim != 1 and axis is not None:
        raise Unsupported("cumsum")
    dt = I64 if x.dt.kind in "bi" else U64 if x.dt.kind == "u" else x.dt
    out, r = [], None
    for z in x.reshape(-1):
        r = z if r is None else r + z
        out.append(r)
    return array(out, dtype=dt)


class Opaque:
    """A value that may only be printed."""
    def __format__(self, s):
        return "?"

    def __str__(self):
        return "?"

    def __float__(self):
        return 0.0


def mean(x, axis=None, **k):
    x = asarray(x)
    if not _symmask(x.a) and axis is None:
        return _float(_np.mean(_native(x.a, x.dt, [])))
    if axis is None and x.dt.kind in "bui":
        s = sum(x)
        return LazyMean(s, x.a.size)
    if axis is not None and x.dt.kind == "f":
        def f(v):
            r = 0.0
            for z in v.a:
                r = float_mix("add", r, _scalar(z, v.dt) if type(z) in _SYM else z, v.dt)
            return float_mix("div", r, _float(v.a.size), v.dt)
        return _axis(f, x, axis)
    raise Unsupported("mean")


class LazyMean:
    _sym_obj = True

    def __init__(self, s, n):
        self.s, self.n = s, n

    def __format__(self, s):
        return "?"

    __str__ = lambda self: "?"
    __repr__ = __str__

    def num(self):
        raise Unsupported("mean of symbolic integers used in arithmetic")

    def __gt__(self, o):
        return self.s > o * self.n

    def __lt__(self, o):
        return self.s < o * self.n

    def __eq__(self, o):
        return self.s == o * self.n

    def __bool__(self):
        return _bool(self.s != 0)


average = mean


def count_nonzero(x, axis=None, **k):
    x = asarray(x)

    def f(v):
        tot, r = 0, None
        for z in v.a:
            if type(z) in _SYM:
                b = as_bool(cast(_scalar(z, v.dt), BOOL))
                r1 = asnum(b.num())
                r = r1 if r is None else raw("add", r, r1)
            elif z:
                tot += 1
        n = Num.of(tot)
        if r is not None:
            n = raw("add", r, n)
        return n.lo if n.t is None else n
    return _axis(f, x, axis)


def nonzero(x):
    x = asarray(x)
    pos = []
    for idx in _np.ndindex(*x.a.shape):
        z = x.a[idx]
        if type(z) in _SYM:
            z = _bool(_scalar(z, x.dt))
        if z:
            pos.append(idx)
    out = []
    for d in _range(x.a.ndim):
        c = _np.empty((len(pos),), dtype=object)
        for i, p in enumerate(pos):
            c[i] = _int(p[d])
        out.append(Arr(c, I64))
    return tuple(out)


def argwhere(x):
    nz = nonzero(x)
    return stack(nz, axis=1)


def flatnonzero(x):
    return nonzero(asarray(x).reshape(-1))[0]


def _ext(name):
    lt = name == "min"

    def f(x, axis=None, out=None, keepdims=False, **k):
        x = asarray(x)

        def g(v):
            if v.a.size == 0:
                raise ValueError("zero-size array to reduction operation")
            r = None
            for z in v.a:
                z = _scalar(z, v.dt)
                r = z if r is None else _minmax(name, r, z)
            return make_scalar(r, v.dt)
        return _axis(g, x, axis)
    return f


amax = max = nanmax = _ext("max")
amin = min = nanmin = _ext("min")


def _arg(lt):
    def f(x, axis=None, **k):
        x = asarray(x)

        def g(v):
            bi, bv = 0, _scalar(v.a[0], v.dt)
            for i in _range(1, v.a.size):
                z = _scalar(v.a[i], v.dt)
                if (z < bv) if lt else (z > bv):
                    bi, bv = i, z
            return Num(None, bi, bi, I64)
        return _axis(g, x, axis)
    return f


argmin = _arg(True)
argmax = _arg(False)


def argsort(x, axis=-1, kind=None, **k):
    x = asarray(x)
    if x.ndim != 1:
        raise Unsupported("argsort of a matrix")
    idx = sorted(_range(x.a.size), key=lambda i: _Key(_scalar(x.a[i], x.dt)))
    return array(idx, dtype=I64)


class _Key:
    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return _bool(self.v < o.v)


def sort(x, axis=-1, **k):
    x = asarray(x)
    if x.ndim == 1:
        return x[argsort(x)]
    raise Unsupported("sort of a matrix")


def unique(x, return_index=False, return_inverse=False, return_counts=False, **k):
    if return_index or return_inverse or return_counts:
        raise Unsupported("unique with extra outputs")
    x = asarray(x).reshape(-1)
    vals = []
    for z in sort(x):
        if not vals or _bool(vals[-1] != z):
            vals.append(z)
    return array(vals, dtype=x.dt)


def lexsort(keys):
    keys = [asarray(k) for k in keys]
    n = keys[0].a.size
    idx = list(_range(n))
    for k in keys:
        idx.sort(key=lambda i: _Key(_scalar(k.a[i], k.dt)))
    return array(idx, dtype=I64)


def isin(x, ys, **k):
    x = asarray(x)
    ys = [y for y in asarray(ys).reshape(-1)]
    out = _np.empty(x.a.shape, dtype=object)
    f = out.reshape(-1)
    for i, z in enumerate(x.a.reshape(-1)):
        f[i] = _norm(b_any([_scalar(z, x.dt) == y for y in ys]) if ys else SymBool(c=False), BOOL)
    return Arr(out, BOOL)


in1d = isin


def array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    r = all(a == b) if a.a.size else True
    return r


array_equiv = array_equal


def allclose(a, b, **k):
    raise Unsupported("allclose")


def diff(x, n=1, axis=-1):
    x = asarray(x)
    if x.ndim != 1 or n != 1:
        raise Unsupported("diff")
    return x[1:] - x[:-1]


def dot(a, b):
    raise Unsupported("dot")


def vectorize(f, otypes=None, **k):
    def g(*xs):
        arrs = [asarray(x) for x in xs]
        bs = _np.broadcast_arrays(*[x.a for x in arrs])
        out = []
        for i in _range(bs[0].size):
            out.append(f(*[_scalar(b.reshape(-1)[i], x.dt) for b, x in zip(bs, arrs)]))
        return array(out, dtype=otypes[0] if otypes else None).reshape(bs[0].shape)
    return g


def apply_along_axis(f, axis, x, *a):
    x = asarray(x)
    m = _np.moveaxis(x.a, axis, -1)
    res = [f(Arr(m[i], x.dt), *a) for i in _np.ndindex(*m.shape[:-1])]
    return array(res).reshape(m.shape[:-1] + tuple(asarray(res[0]).shape))


def packbits(x, axis=None, bitorder="big"):
    x = asarray(x).astype(BOOL)
    if x.ndim != 1:
        raise Unsupported("packbits")
    out = []
    for i in _range(0, x.a.size, 8):
        r = 0
        for j in _range(8):
            if i + j < x.a.size:
                bit = as_bool(_scalar(x.a[i + j], BOOL)).num()
                r = r + (bit << (j if bitorder == "little" else 7 - j))
        out.append(r)
    return array(out, dtype=DTS["uint8"])


def unpackbits(x, axis=None, count=None, bitorder="big"):
    x = asarray(x)
    out = []
    for z in x.reshape(-1):
        for j in _range(8):
            out.append((z >> (j if bitorder == "little" else 7 - j)) & 1)
    r = array(out, dtype=DTS["uint8"])
    if axis is not None:
        r = r.reshape(x.shape[:-1] + (x.shape[-1] * 8,))
    return r


def percentile(*a, **k):
    raise Unsupported("percentile is not stubbed here")


quantile = median = std = var = percentile


def errstate(**k):
    class C:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False
    return C()


def seterr(**k):
    return {}


def set_printoptions(**k):
    pass


class _Random:
    """Nondeterministic values in place of random numbers."""

    def __init__(self):
        self.hook = None

    def randint(self, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        if size is None:
            return self._one(low, high)
        sh = _shape(size)
        a = _np.empty(sh, dtype=object)
        f = a.reshape(-1)
        for i in _range(f.size):
            f[i] = _norm(self._one(low, high), I64)
        return Arr(f.reshape(sh), todt(dtype) if dtype is not None else I64)

    def _one(self, low, high):
        if self.hook is not None:
            return self.hook(low, high)
        n = (high - 1).bit_length()
        v = eng().fresh_unique("rnd", _max(n, 1), I64, lo=low, hi=high - 1)
        return v

    integers = randint

    def seed(self, *a):
        pass

    def default_rng(self, *a):
        return self

    def shuffle(self, x):
        pass

    def permutation(self, x):
        return arange(x) if isinstance(x, _int) else asarray(x).copy()

    def rand(self, *a):
        raise Unsupported("random floats")

    random = random_sample = uniform = rand


random = _Random()


# ------------------------------------------------------------------ symbolic tables

class SymTable:
    """A read-only two-level table [byte offset][pair] given by a Python function.

    get(o, pair) returns a Num of dtype dt.  Stands for an edit distance matrix with
    arbitrary contents.
    """

    def __init__(self, get, rows, cols, dt, row=None):
        self.get, self.rows, self.cols, self.dt, self.row = get, rows, cols, dt, row

    @property
    def shape(self):
        return (self.rows, self.cols) if self.row is None else (self.cols,)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def dtype(self):
        return dtype(self.dt)

    def astype(self, d, **k):
        dt = todt(d)
        if dt is self.dt:
            return self
        g = self.get
        return SymTable(lambda o, p: cast(g(o, p), dt), self.rows, self.cols, dt, self.row)

    def copy(self):
        return self

    def __len__(self):
        return self.shape[0]

    def reshape(self, *s):
        raise Unsupported("reshape of a symbolic table")

    def __getitem__(self, key):
        if self.row is None:
            if isinstance(key, tuple):
                if len(key) == 2:
                    return self[key[0]][key[1]]
                raise Unsupported("table index")
            if isinstance(key, (slice, Arr, list)):
                raise Unsupported("table slice")
            r = key.__index__()
            if r < 0:
                r += self.rows
            if not 0 <= r < self.rows:
                raise IndexError("index %d is out of bounds for axis 0" % r)
            return SymTable(self.get, self.rows, self.cols, self.dt, r)
        if isinstance(key, tuple) and len(key) == 1:
            key = key[0]
        if isinstance(key, (list, tuple)):
            key = asarray(key)
        if isinstance(key, Arr):
            if key.dt.kind not in "ui":
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            out = _np.empty(key.a.shape, dtype=object)
            f = out.reshape(-1)
            memo = {}
            for i, x in enumerate(key.a.reshape(-1)):
                if type(x) is _int:
                    v = memo.get(x)
                    if v is None:
                        v = memo[x] = _norm(self._get(Num.of(x)), self.dt)
                else:
                    v = _norm(self._get(_scalar(x, key.dt)), self.dt)
                f[i] = v
            return Arr(f.reshape(out.shape), self.dt)
        if isinstance(key, (_float, Flt, slice)):
            raise IndexError("only integers are valid indices of this table")
        return _scalar(_norm(self._get(asnum(key)), self.dt), self.dt)

    def _get(self, n):
        if n.lo < 0 or n.hi >= self.cols:
            ok = b_and(n >= 0, n < self.cols)
            if not _bool(ok):
                raise IndexError("index out of bounds for axis 0 with size %d" % self.cols)
        return self.get(self.row, n)


ma = None
nditer = None
c_ = None
r_ = None


def errors(*a):
    raise Unsupported("numpy")

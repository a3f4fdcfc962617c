"""Symbolic values and path exploration.

Num      an integer value (Python int or numpy integer scalar) that may be symbolic.
         A symbolic Num is a z3 bit-vector read as a signed number, together with an
         interval [lo, hi] that the value is known to lie in; the width always covers the
         interval, so Python's unbounded integers never wrap, and numpy's fixed width
         integers wrap exactly where numpy wraps them.
SymBool  a truth value that may be symbolic.  Asking for its bool() forks the path.
Flt      an IEEE float (float32 / float64) that may be symbolic.
Engine   explores all feasible paths of a Python callable, forking the process at decisions.
"""
import ctypes
import math
import os
import pickle
import time

import z3

CTX = z3.main_ctx()
_LIBC = ctypes.CDLL(None)


class Unsupported(BaseException):
    """The encoding cannot express an operation: the check has no answer."""


class PathAbort(BaseException):
    """Stop this path: its condition is unsatisfiable or it was cut deliberately."""


class BudgetExceeded(BaseException):
    pass


# ------------------------------------------------------------------ dtypes

class DT:
    __slots__ = ("name", "kind", "bits", "lo", "hi")

    def __init__(self, name, kind, bits):
        self.name = name
        self.kind = kind  # b u i f
        self.bits = bits
        if kind == "u":
            self.lo, self.hi = 0, 2 ** bits - 1
        elif kind == "i":
            self.lo, self.hi = -2 ** (bits - 1), 2 ** (bits - 1) - 1
        elif kind == "b":
            self.lo, self.hi = 0, 1
        else:
            self.lo = self.hi = None

    def __repr__(self):
        return "DT(%s)" % self.name

    def __reduce__(self):
        return (dtype_by_name, (self.name,))


DTS = {}
for _k, _bs in (("u", (8, 16, 32, 64)), ("i", (8, 16, 32, 64))):
    for _b in _bs:
        _n = ("uint%d" if _k == "u" else "int%d") % _b
        DTS[_n] = DT(_n, _k, _b)
DTS["bool"] = DT("bool", "b", 8)
DTS["float32"] = DT("float32", "f", 32)
DTS["float64"] = DT("float64", "f", 64)
DTS["float16"] = DT("float16", "f", 16)
DTS["object"] = DT("object", "O", 0)


def dtype_by_name(n):
    return DTS[n]


BOOL = DTS["bool"]
F32 = DTS["float32"]
F64 = DTS["float64"]
I64 = DTS["int64"]
U64 = DTS["uint64"]
OBJ = DTS["object"]

_promo = {}


def promote(a, b):
    """numpy.promote_types for the dtypes we know."""
    if a is b:
        return a
    k = (a.name, b.name)
    r = _promo.get(k)
    if r is None:
        import numpy
        r = DTS[numpy.promote_types(a.name, b.name).name]
        _promo[k] = r
    return r


def min_scalar(lo, hi):
    """numpy.min_scalar_type of every value in [lo, hi], if it is one type."""
    def one(v):
        if v >= 0:
            for b in (8, 16, 32, 64):
                if v < 2 ** b:
                    return DTS["uint%d" % b]
        else:
            for b in (8, 16, 32, 64):
                if v >= -2 ** (b - 1):
                    return DTS["int%d" % b]
        return OBJ
    a, b = one(lo), one(hi)
    return a, b


# ------------------------------------------------------------------ engine

class StopExploration(BaseException):
    """A path's result ends the exploration."""


def _bit_blaster():
    return z3.Then("simplify", "solve-eqs", "simplify", "bit-blast", "sat").solver()


def _reseeded():
    s = z3.Solver()
    s.set("random_seed", 11)
    return s


def new_acc():
    return {"status": "held", "cex": None, "error": None, "trace": None, "claims": 0, "paths": 0,
            "aborted": 0, "queries": 0, "solver_s": 0.0, "branches": 0, "simplified": 0,
            "functions": set(), "names": set(), "covers": {}, "known": set(), "witness": []}


def merge_acc(a, b):
    for k in ("claims", "paths", "aborted", "queries", "solver_s", "branches", "simplified"):
        a[k] += b[k]
    for k in ("functions", "names", "known"):
        a[k] |= b[k]
    a["witness"] += b["witness"]
    for k, v in b["covers"].items():
        a["covers"][k] = a["covers"].get(k, False) or v
    if a["status"] == "held" and b["status"] != "held":
        for k in ("status", "cex", "error", "trace"):
            a[k] = b[k]


# Tokens shared by all processes of a check: a path is split in parallel while there are any.
JOBS = None


def jobs_init(n):
    global JOBS
    r, w = os.pipe()
    os.set_blocking(r, False)
    JOBS = (r, w)
    jobs_give(n)


def jobs_take():
    if JOBS is None:
        return False
    try:
        return bool(os.read(JOBS[0], 1))
    except BlockingIOError:
        return False


def jobs_wait(deadline):
    import select
    while deadline is None or time.time() < deadline:
        select.select([JOBS[0]], [], [], 1.0) if JOBS is not None else None
        if JOBS is None or jobs_take():
            return


def jobs_give(n=1):
    if JOBS is not None and n > 0:
        os.write(JOBS[1], b"x" * n)


class Engine:
    """Path exploration by forking, with one incremental z3 solver per path."""

    current = None

    no_split = False

    def __init__(self, timeout_s=None, query_ms=120000):
        self.deadline = None if timeout_s is None else time.time() + timeout_s
        self.query_ms = query_ms
        self.n_queries = 0
        self.solver_s = 0.0
        self.n_branches = 0
        self.n_simplified = 0
        self._vc = 0
        self.lits = {}
        self.vars = {}
        self.ranges = {}
        self.acc = new_acc()
        self.child_token = False
        self.on_split = None

    # -- variables

    def fresh(self, name, bits, dt=None, lo=0, hi=None, signed=False):
        """A fresh symbolic integer, unsigned `bits` wide (or signed)."""
        if signed:
            t = z3.BitVec(name, bits)
            l, h = -2 ** (bits - 1), 2 ** (bits - 1) - 1
        else:
            v = z3.BitVec(name, bits)
            t = z3.ZeroExt(1, v)
            l, h = 0, 2 ** bits - 1
            self.vars[name] = v
        if signed:
            self.vars[name] = t
        n = Num(t, l, h, dt)
        self.ranges[name] = (l if lo is None else max(l, lo), h if hi is None else min(h, hi))
        if (lo is not None and lo > l) or (hi is not None and hi < h):
            lo = l if lo is None else max(lo, l)
            hi = h if hi is None else min(hi, h)
            if lo > l:
                self.assume_t(t >= lo)
            if hi < h:
                self.assume_t(t <= hi)
            n.lo, n.hi = lo, hi
        return n

    float_interval = False

    def fresh_bool(self, name):
        t = z3.Bool(name)
        self.vars[name] = t
        return SymBool(t)

    def fresh_unique(self, prefix, bits, dt=None, **kw):
        self._vc += 1
        return self.fresh("%s!%d" % (prefix, self._vc), bits, dt, **kw)

    # -- path condition

    def _learn(self, t):
        """Remember the truth of a variable on this path."""
        c, v = (t.arg(0), False) if z3.is_not(t) else (t, True)
        if z3.is_const(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            self.lits[c.get_id()] = (c, z3.BoolVal(v))

    def assume_t(self, t):
        self._learn(t)
        self.pc.append(t)
        self.solver.add(t)

    def assume(self, c):
        if isinstance(c, SymBool):
            if c.c is None:
                self.assume_t(c.t)
                return
            c = c.c
        if not c:
            raise PathAbort("assume false")

    def _check(self, *extra):
        """Satisfiability of the path condition with extra: incrementally, then in one shot."""
        if self.float_interval:
            r = self._integers(extra)
            if r is not None:
                return r
        t0 = time.time()
        self.last = self.solver
        r = self.solver.check(*extra)
        if r == z3.unknown:
            r, self.last = self._oneshot(list(self.pc) + list(extra))
        self.solver_s += time.time() - t0
        self.n_queries += 1
        if r == z3.unknown:
            raise Unsupported("solver returned unknown on a branch")
        return r == z3.sat

    def _oneshot(self, fs):
        """Verdict and solver on a set of formulas.

        The time a solver needs on one query varies widely with its search order, so other
        orders and another procedure get a turn before the full time limit is spent.
        """
        for make, ms in ((z3.Solver, 15000), (_bit_blaster, 30000), (_reseeded, 15000), (z3.Solver, self.query_ms)):
            s = make()
            s.set("timeout", min(ms, self.query_ms))
            s.add(*fs)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r != z3.unknown:
                break
        return r, s

    def _integers(self, extra):
        """Decide as linear integer arithmetic if the query is such; None if it is not."""
        from . import lin
        t0 = time.time()
        try:
            r, eqs = lin.decide(self.pc + list(extra), self.ranges, min(60000, self.query_ms))
        except lin.CannotTranslate:
            return None
        finally:
            self.solver_s += time.time() - t0
        if r == "unknown":
            return None
        self.n_queries += 1
        if r == "unsat":
            return False
        self.last = z3.Solver()
        self.last.add(*self.pc)
        self.last.add(*extra)
        self.last.add(*eqs)
        if self.last.check() != z3.sat:
            raise RuntimeError("integer translation disagrees with bit-vectors")
        return True

    def _budget(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded("time budget exceeded")

    def branch(self, t):
        """Decide a symbolic condition, forking if both sides are feasible."""
        self.n_branches += 1
        self._budget()
        s = z3.simplify(t)
        if z3.is_true(s) or z3.is_false(s):
            return z3.is_true(s)
        if self._check(t):
            if not self._check(z3.Not(t)):
                self._learn(s)
                return True
            if self.split():
                self.assume_t(z3.Not(t))
                return False
            self.assume_t(t)
            return True
        # the path condition is satisfiable, so the negation is
        self._learn(z3.Not(s))
        return False

    def concretize(self, num):
        """Fix the value of a symbolic integer, forking over all its values."""
        t = num.t
        while True:
            self._budget()
            if not self._check():
                raise PathAbort("infeasible")
            m = self.last.model()
            v = m.eval(t, model_completion=True).as_signed_long()
            if not self._check(t != v):
                return v
            if self.split():
                self.assume_t(t == v)
                return v
            self.assume_t(t != v)

    # -- exploration

    def explore(self, fn, handle):
        """Run fn() over every feasible path; handle(outcome, value) is called for each path.

        outcome is 'ok' (value: the return value) or 'exc' (value: the exception).  While
        handle runs, engine.solver holds the path's condition; handle returns True to stop.
        Paths are split with os.fork: the child takes one side of a decision, the parent the
        other, so that no prefix is executed twice.  The accumulated results (self.acc) of a
        child are sent to the parent and merged there.
        """
        self.pc = []
        self._vc = 0
        self.vars = {}
        self.no_split = False
        self.lits = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", 150)
        self.kids = []
        self.up = None
        prev = Engine.current
        Engine.current = self
        try:
            try:
                try:
                    try:
                        out = ("ok", fn())
                    except (Unsupported, BudgetExceeded, RecursionError):
                        raise
                    except Exception as e:
                        out = ("exc", e)
                    self.acc["paths"] += 1
                    handle(*out)
                except PathAbort:
                    self.acc["aborted"] += 1
                self.reap()
            except StopExploration:
                pass
            except BaseException as x:
                self.fail(x)
        finally:
            Engine.current = prev
            self.stats()
            self.kill_kids()
            if self.up is not None:
                self.send_up()
        return self.acc

    def fail(self, x):
        import traceback
        st = "unsupported" if isinstance(x, Unsupported) else "budget" if isinstance(x, BudgetExceeded) else "error"
        if self.acc["status"] == "held":
            self.acc["status"] = st
            self.acc["error"] = "".join(traceback.format_exception(x))[-3000:]

    def stats(self):
        self.acc["queries"] += self.n_queries
        self.acc["solver_s"] += self.solver_s
        self.acc["branches"] += self.n_branches
        self.acc["simplified"] += self.n_simplified
        self.n_queries = self.n_branches = self.n_simplified = 0
        self.solver_s = 0.0

    def split(self):
        """Fork.  Returns True in the child."""
        self._budget()
        if self.no_split() if callable(self.no_split) else self.no_split:
            raise Unsupported("a decision on symbolic values while threads run")
        if self.on_split is not None:
            self.on_split()
        token = jobs_take()
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            _LIBC.prctl(1, 9)   # end with the parent
            try:
                os.close(r)
                for k in self.kids:
                    os.close(k[1])
            except OSError:
                pass
            self.kids = []
            if self.up is not None:
                os.close(self.up)
            self.up = w
            self.child_token = token
            self.acc = new_acc()
            self.n_queries = self.n_branches = self.n_simplified = 0
            self.solver_s = 0.0
            return True
        os.close(w)
        self.kids.append((pid, r))
        if not token:
            self.reap(1)
        return False

    def reap(self, count=None):
        """Wait for the last `count` children (all: this process no longer needs its slot)."""
        given = False
        if count is None and self.kids:
            given = True
            jobs_give()
        while self.kids and count != 0:
            if count is not None:
                count -= 1
            pid, fd = self.kids.pop()
            chunks = []
            while True:
                b = os.read(fd, 1 << 20)
                if not b:
                    break
                chunks.append(b)
            os.close(fd)
            os.waitpid(pid, 0)
            data = b"".join(chunks)
            if not data:
                raise Unsupported("a path's process ended without a result (out of memory?)")
            merge_acc(self.acc, pickle.loads(data))
            if self.acc["status"] != "held":
                raise StopExploration()
        if given:
            if self.child_token:
                self.child_token = False
            elif self.up is not None:
                jobs_wait(self.deadline)

    def kill_kids(self):
        for pid, fd in self.kids:
            try:
                os.kill(pid, 9)
            except OSError:
                pass
            os.close(fd)
            os.waitpid(pid, 0)
        self.kids = []

    def send_up(self):
        code = 0
        try:
            data = pickle.dumps(self.acc)
            view = memoryview(data)
            while view:
                n = os.write(self.up, view)
                view = view[n:]
            os.close(self.up)
        except BaseException:
            code = 1
        if self.child_token:
            jobs_give()
        os._exit(code)

    def _fresh_check(self, extra):
        """One-shot query (not incremental): path condition and extra."""
        if self.float_interval:
            r = self._integers(extra)
            if r is not None:
                return self.last.model() if r else None
        t0 = time.time()
        r, s = self._oneshot(list(self.pc) + list(extra))
        self.solver_s += time.time() - t0
        self.n_queries += 1
        if r == z3.unknown:
            raise Unsupported("solver returned unknown on a claim: %s" % s.reason_unknown())
        return s.model() if r == z3.sat else None

    def valid(self, claim):
        """None if claim holds on this path for all values, else a model."""
        return self.valid_all([claim])

    def valid_all(self, claims, chunk=64):
        """None if all claims hold on this path for all values, else a model of a failure."""
        ts = []
        for c in claims:
            if isinstance(c, SymBool):
                c = c.c if c.c is not None else c.t
            if isinstance(c, bool):
                if c:
                    continue
                return self._fresh_check([])
            s = z3.simplify(c)
            if z3.is_true(s):
                self.n_simplified += 1
                continue
            c = c if self.float_interval else s
            if z3.is_and(c):
                ts.extend(c.children())
            else:
                ts.append(c)
        for i in range(0, len(ts), chunk):
            self._budget()
            part = ts[i:i + chunk]
            m = self._fresh_check([z3.Not(z3.And(part)) if len(part) > 1 else z3.Not(part[0])])
            if m is not None:
                return m
        return None


def eng():
    e = Engine.current
    if e is None:
        raise Unsupported("symbolic branch outside exploration")
    return e


# ------------------------------------------------------------------ booleans

_TRUE = z3.BoolVal(True)
_FALSE = z3.BoolVal(False)


class SymBool:
    __slots__ = ("t", "c")
    __array_ufunc__ = None

    def __init__(self, t=None, c=None):
        self.t = t
        self.c = c

    def __bool__(self):
        if self.c is not None:
            return self.c
        return eng().branch(self.t)

    def term(self):
        return self.t if self.c is None else (_TRUE if self.c else _FALSE)

    def num(self):
        if self.c is not None:
            return int(self.c)
        return Num(z3.If(self.t, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1, None)

    @property
    def dtype(self):
        return BOOL

    def __repr__(self):
        return "SymBool(%s)" % (self.c if self.c is not None else self.t)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __invert__(self):
        return b_not(self)

    def __and__(self, o):
        o2 = as_bool(o)
        return b_and(self, o2) if o2 is not None else NotImplemented if not isinstance(o, (int, Num)) else Num.of(self.num()) & o

    def __or__(self, o):
        o2 = as_bool(o)
        return b_or(self, o2) if o2 is not None else NotImplemented if not isinstance(o, (int, Num)) else Num.of(self.num()) | o

    def __xor__(self, o):
        o2 = as_bool(o)
        return b_xor(self, o2) if o2 is not None else NotImplemented if not isinstance(o, (int, Num)) else Num.of(self.num()) ^ o

    __rand__ = __and__
    __ror__ = __or__
    __rxor__ = __xor__

    def __eq__(self, o):
        o2 = as_bool(o)
        if o2 is not None:
            return b_not(b_xor(self, o2))
        if isinstance(o, (int, Num)):
            return Num.of(self.num()) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return b_not(r) if isinstance(r, SymBool) else not r

    def any(self):
        return self

    all = any

    def astype(self, dt):
        return cast(Num.of(self.num()), dt)


def _arith(name):
    def f(self, o):
        return getattr(Num.of(self.num()), name)(o)
    return f


for _n in ("add", "sub", "mul", "radd", "rsub", "rmul", "lshift", "rshift",
           "rlshift", "rrshift", "lt", "le", "gt", "ge", "floordiv", "mod", "neg"):
    if _n == "neg":
        SymBool.__neg__ = lambda self: -Num.of(self.num())
    else:
        setattr(SymBool, "__%s__" % _n, _arith("__%s__" % _n))


def as_bool(o):
    if isinstance(o, SymBool):
        return o
    if isinstance(o, bool):
        return SymBool(c=o)
    if type(o).__name__ in ("bool_", "bool") and type(o).__module__ == "numpy":
        return SymBool(c=bool(o))
    return None


def mkb(t):
    if z3.is_true(t):
        return SymBool(c=True)
    if z3.is_false(t):
        return SymBool(c=False)
    return SymBool(t)


def b_not(a):
    if a.c is not None:
        return SymBool(c=not a.c)
    return SymBool(z3.Not(a.t))


def b_and(a, b):
    if a.c is not None:
        return b if a.c else a
    if b.c is not None:
        return a if b.c else b
    return SymBool(z3.And(a.t, b.t))


def b_or(a, b):
    if a.c is not None:
        return a if a.c else b
    if b.c is not None:
        return b if b.c else a
    return SymBool(z3.Or(a.t, b.t))


def b_xor(a, b):
    if a.c is not None:
        return b_not(b) if a.c else b
    if b.c is not None:
        return b_not(a) if b.c else a
    return SymBool(z3.Xor(a.t, b.t))


def b_all(xs):
    ts = []
    for x in xs:
        x = as_bool(x)
        if x.c is not None:
            if not x.c:
                return SymBool(c=False)
            continue
        ts.append(x.t)
    if not ts:
        return SymBool(c=True)
    return SymBool(z3.And(ts) if len(ts) > 1 else ts[0])


def b_any(xs):
    return b_not(b_all([b_not(as_bool(x)) for x in xs]))


# ------------------------------------------------------------------ integers

def need_width(lo, hi):
    """Least w with -2^(w-1) <= lo and hi < 2^(w-1)."""
    return max(hi.bit_length() if hi >= 0 else 0,
               (-lo - 1).bit_length() if lo < 0 else 0) + 1


def _bits_hi(*hs):
    return (1 << max(h.bit_length() for h in hs)) - 1


class Num:
    __slots__ = ("t", "lo", "hi", "dt", "_h")
    __array_ufunc__ = None

    def __init__(self, t, lo, hi, dt=None):
        self.t = t
        self.lo = lo
        self.hi = hi
        self.dt = dt
        self._h = None

    @staticmethod
    def of(v, dt=None):
        if isinstance(v, Num):
            return v
        if isinstance(v, SymBool):
            return Num.of(v.num())
        v = int(v)
        return Num(None, v, v, dt)

    @property
    def is_c(self):
        return self.t is None

    @property
    def dtype(self):
        import symx.snp as snp
        return snp.dtype(self.dt or I64)

    @property
    def shape(self):
        return ()

    ndim = 0
    size = 1

    def term(self, w=None):
        """The bit-vector at width w (at least the needed width)."""
        if w is None:
            w = self.w()
        if self.t is None:
            return z3.BitVecVal(self.lo, w)
        s = self.t.size()
        if s == w:
            return self.t
        if s < w:
            return z3.SignExt(w - s, self.t)
        return z3.Extract(w - 1, 0, self.t)

    def w(self):
        return need_width(self.lo, self.hi)

    def narrow(self):
        """Drop bits the interval says are redundant."""
        if self.t is not None:
            n = self.w()
            if self.t.size() > n:
                self.t = z3.Extract(n - 1, 0, self.t)
        return self

    # -- conversions

    def __index__(self):
        if self.t is None:
            return self.lo
        return eng().concretize(self)

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        if self._h is None and self.t is None:
            self._h = hash(self.lo)
        if self._h is not None:
            return self._h
        return hash(eng().concretize(self))

    def __bool__(self):
        if self.t is None:
            return self.lo != 0
        return bool(self != 0)

    def __repr__(self):
        if self.t is None:
            return "%d" % self.lo if self.dt is None else "%s(%d)" % (self.dt.name, self.lo)
        return "<sym [%d,%d]%s>" % (self.lo, self.hi, "" if self.dt is None else " " + self.dt.name)

    def __str__(self):
        return str(self.lo) if self.t is None else repr(self)

    def __format__(self, spec):
        if self.t is None:
            return format(self.lo, spec)
        return repr(self)

    def item(self):
        return Num(self.t, self.lo, self.hi, None) if self.t is not None else self.lo

    tolist = item

    def astype(self, dt, **kw):
        import symx.snp as snp
        return cast(self, snp.todt(dt))

    def reshape(self, *shape, **kw):
        import symx.snp as snp
        return snp.asarray(self).reshape(*shape)

    def copy(self):
        return self

    def any(self):
        return self != 0

    all = any

    def flatten(self):
        return self.reshape(-1)

    ravel = flatten

    def bit_length(self):
        return self.__index__().bit_length()

    def to_bytes(self, n, order="big", *, signed=False):
        if self.t is None:
            return self.lo.to_bytes(n, order, signed=signed)
        raise Unsupported("to_bytes on a symbolic integer")

    # -- arithmetic

    def __add__(self, o):
        return binop("add", self, o)

    def __radd__(self, o):
        return binop("add", o, self)

    def __sub__(self, o):
        return binop("sub", self, o)

    def __rsub__(self, o):
        return binop("sub", o, self)

    def __mul__(self, o):
        return binop("mul", self, o)

    def __rmul__(self, o):
        return binop("mul", o, self)

    def __and__(self, o):
        return binop("and", self, o)

    def __rand__(self, o):
        return binop("and", o, self)

    def __or__(self, o):
        return binop("or", self, o)

    def __ror__(self, o):
        return binop("or", o, self)

    def __xor__(self, o):
        return binop("xor", self, o)

    def __rxor__(self, o):
        return binop("xor", o, self)

    def __lshift__(self, o):
        return binop("shl", self, o)

    def __rlshift__(self, o):
        return binop("shl", o, self)

    def __rshift__(self, o):
        return binop("shr", self, o)

    def __rrshift__(self, o):
        return binop("shr", o, self)

    def __floordiv__(self, o):
        return binop("fdiv", self, o)

    def __rfloordiv__(self, o):
        return binop("fdiv", o, self)

    def __mod__(self, o):
        return binop("mod", self, o)

    def __rmod__(self, o):
        return binop("mod", o, self)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        return binop("pow", self, o)

    def __rpow__(self, o):
        return binop("pow", o, self)

    def __truediv__(self, o):
        return truediv(self, o)

    def __rtruediv__(self, o):
        return truediv(o, self)

    def __neg__(self):
        return wrap_dt(raw_neg(self), self.dt)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.t is None:
            return wrap_dt(Num.of(abs(self.lo)), self.dt)
        return wrap_dt(ite(self < 0, raw_neg(self), self), self.dt)

    def __invert__(self):
        if self.dt is not None and self.dt.kind == "u":
            return wrap_dt(raw("sub", Num.of(self.dt.hi), self), self.dt)
        if self.dt is BOOL:
            return self == 0
        return wrap_dt(raw("sub", Num.of(-1), self), self.dt)

    # -- comparison

    def __eq__(self, o):
        return compare("eq", self, o)

    def __ne__(self, o):
        return compare("ne", self, o)

    def __lt__(self, o):
        return compare("lt", self, o)

    def __le__(self, o):
        return compare("le", self, o)

    def __gt__(self, o):
        return compare("gt", self, o)

    def __ge__(self, o):
        return compare("ge", self, o)


class LazyNum(Num):
    """A Num whose term is only built when it is looked at."""
    __slots__ = ("cell",)

    def __init__(self, cell, lo, hi, dt):
        self.cell = cell
        self.lo = lo
        self.hi = hi
        self.dt = dt
        self._h = None

    @property
    def t(self):
        c = self.cell
        if callable(c[0]):
            c[0] = c[0]()
        return c[0]

    def retyped(self, dt):
        return LazyNum(self.cell, self.lo, self.hi, dt)


def fromraw(t, lo, hi, dt=None):
    if lo == hi:
        return Num(None, lo, lo, dt)
    n = Num(t, lo, hi, dt)
    return n.narrow()


def raw_neg(a):
    return raw("sub", Num.of(0), a)


def _exact_w(w, a, b):
    """A width at which the operands are not truncated either (for the integer translation)."""
    if Engine.current is not None and Engine.current.float_interval:
        return max(w, a.w(), b.w())
    return w


def raw(op, a, b):
    """Exact integer operation on two Nums, as a dtype-less Num."""
    if type(a) is LazyNum and op in ("add", "sub") and b.lo == 0 == b.hi:
        return a.retyped(None)
    if a.t is None and b.t is None:
        x, y = a.lo, b.lo
        if op == "add":
            v = x + y
        elif op == "sub":
            v = x - y
        elif op == "mul":
            v = x * y
        elif op == "and":
            v = x & y
        elif op == "or":
            v = x | y
        elif op == "xor":
            v = x ^ y
        elif op == "shl":
            v = x << y
        elif op == "shr":
            v = x >> y
        elif op == "fdiv":
            v = x // y
        elif op == "mod":
            v = x % y
        elif op == "pow":
            v = x ** y
            if not isinstance(v, int):
                raise Unsupported("non-integer power")
        else:
            raise Unsupported(op)
        return Num(None, v, v, None)
    if op == "add":
        lo, hi = a.lo + b.lo, a.hi + b.hi
        if a.t is None and a.lo == 0:
            return Num(b.t, b.lo, b.hi, None)
        if b.t is None and b.lo == 0:
            return Num(a.t, a.lo, a.hi, None)
        w = _exact_w(need_width(lo, hi), a, b)
        return fromraw(a.term(w) + b.term(w), lo, hi)
    if op == "sub":
        lo, hi = a.lo - b.hi, a.hi - b.lo
        if b.t is None and b.lo == 0:
            return Num(a.t, a.lo, a.hi, None)
        w = _exact_w(max(need_width(lo, hi), 1), a, b)
        return fromraw(a.term(w) - b.term(w), lo, hi)
    if op == "mul":
        ps = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
        lo, hi = min(ps), max(ps)
        if b.t is None and b.lo == 1:
            return Num(a.t, a.lo, a.hi, None)
        if a.t is None and a.lo == 1:
            return Num(b.t, b.lo, b.hi, None)
        for x, y in ((a, b), (b, a)):
            if y.t is None and y.lo > 0 and (y.lo & (y.lo - 1)) == 0:
                return raw("shl", x, Num.of(y.lo.bit_length() - 1))
        w = need_width(lo, hi)
        return fromraw(a.term(w) * b.term(w), lo, hi)
    if op in ("and", "or", "xor"):
        for x, y in ((a, b), (b, a)):
            if y.t is None:
                if op == "and":
                    if y.lo == 0:
                        return Num.of(0)
                    if y.lo == -1:
                        return Num(x.t, x.lo, x.hi, None)
                    if y.lo > 0 and x.lo >= 0 and (y.lo & (y.lo + 1)) == 0 and x.hi <= y.lo:
                        return Num(x.t, x.lo, x.hi, None)
                    if x.lo >= 0 and y.lo > 0:
                        # contiguous low mask: plain extract
                        if (y.lo & (y.lo + 1)) == 0:
                            k = y.lo.bit_length()
                            xt = x.term(max(x.w(), k))
                            return fromraw(z3.ZeroExt(1, z3.Extract(k - 1, 0, xt)), 0, y.lo)
                elif y.lo == 0:
                    return Num(x.t, x.lo, x.hi, None)
        if op == "and":
            if a.lo >= 0 and b.lo >= 0:
                lo, hi = 0, min(a.hi, b.hi)
            elif a.lo >= 0:
                lo, hi = 0, a.hi
            elif b.lo >= 0:
                lo, hi = 0, b.hi
            else:
                w = max(a.w(), b.w())
                lo, hi = -2 ** (w - 1), max(a.hi, b.hi, 0)
                hi = _bits_hi(hi)
        else:
            if a.lo >= 0 and b.lo >= 0:
                lo, hi = 0, _bits_hi(a.hi, b.hi)
                if op == "or":
                    lo = max(a.lo, b.lo)
            else:
                w = max(a.w(), b.w())
                lo, hi = -2 ** (w - 1), 2 ** (w - 1) - 1
        w = max(a.w(), b.w())
        x, y = a.term(w), b.term(w)
        t = x & y if op == "and" else x | y if op == "or" else x ^ y
        return fromraw(t, lo, hi)
    if op == "shl":
        if b.lo < 0:
            if bool(compare("lt", b, 0)):
                raise ValueError("negative shift count")
            b = Num(b.t, 0, b.hi, None)
        if b.hi > 512:
            raise Unsupported("shift by up to %d" % b.hi)
        cs = [a.lo << b.lo, a.lo << b.hi, a.hi << b.lo, a.hi << b.hi]
        lo, hi = min(cs), max(cs)
        w = need_width(lo, hi)
        if b.t is None:
            if b.lo == 0:
                return Num(a.t, a.lo, a.hi, None)
            t = z3.Concat(a.term(), z3.BitVecVal(0, b.lo))
            return fromraw(t, lo, hi)
        w = max(w, b.w())
        return fromraw(a.term(w) << b.term(w), lo, hi)
    if op == "shr":
        if b.lo < 0:
            if bool(compare("lt", b, 0)):
                raise ValueError("negative shift count")
            b = Num(b.t, 0, b.hi, None)
        cs = [a.lo >> b.lo, a.lo >> b.hi, a.hi >> b.lo, a.hi >> b.hi]
        lo, hi = min(cs), max(cs)
        if b.t is None:
            k = b.lo
            if k == 0:
                return Num(a.t, a.lo, a.hi, None)
            t = a.term()
            s = t.size()
            if k >= s:
                k = s - 1
            return fromraw(z3.Extract(s - 1, k, t), lo, hi)
        w = max(a.w(), b.w())
        return fromraw(a.term(w) >> b.term(w), lo, hi)
    if op in ("fdiv", "mod"):
        if b.lo <= 0 <= b.hi:
            if bool(compare("eq", b, 0)):
                raise ZeroDivisionError("integer division or modulo by zero")
            if b.lo == 0:
                b = Num(b.t, 1, b.hi, None)
            elif b.hi == 0:
                b = Num(b.t, b.lo, -1, None)
        if b.lo < 0:
            if b.hi > 0:
                raise Unsupported("division by a number of unknown sign")
            # x // -y == (-x) // y ; x % -y == -((-x) % y)
            na, nb = raw_neg(a), raw_neg(b)
            r = raw(op, na, nb)
            return r if op == "fdiv" else raw_neg(r)
        if b.t is None and (b.lo & (b.lo - 1)) == 0:
            k = b.lo.bit_length() - 1
            if op == "fdiv":
                return raw("shr", a, Num.of(k))
            if k == 0:
                return Num.of(0)
            w = max(a.w(), k + 1)
            lo, hi = 0, b.lo - 1
            if a.lo >= 0 and a.hi <= hi:
                return Num(a.t, a.lo, a.hi, None)
            return fromraw(z3.ZeroExt(1, z3.Extract(k - 1, 0, a.term(w))), lo, hi)
        w = max(a.w(), b.w()) + 1
        x, y = a.term(w), b.term(w)
        if a.lo >= 0:
            if op == "fdiv":
                return fromraw(z3.UDiv(x, y), a.lo // b.hi, a.hi // b.lo)
            if a.hi < b.lo:
                return Num(a.t, a.lo, a.hi, None)
            return fromraw(z3.URem(x, y), 0, min(b.hi - 1, a.hi))
        if op == "fdiv":
            cs = [a.lo // b.lo, a.lo // b.hi, a.hi // b.lo, a.hi // b.hi]
            q = x / y  # bvsdiv truncates
            rem = z3.SRem(x, y)
            return fromraw(z3.If(rem < 0, q - 1, q), min(cs), max(cs))
        rem = z3.SRem(x, y)
        return fromraw(z3.If(rem < 0, rem + y, rem), 0, b.hi - 1)
    if op == "pow":
        if b.t is not None:
            b = Num.of(b.__index__())
        if b.lo < 0:
            raise Unsupported("negative power")
        r = Num.of(1)
        if a.t is not None and b.lo > 4:
            raise Unsupported("symbolic power")
        for _ in range(b.lo):
            r = raw("mul", r, a)
        return r
    raise Unsupported(op)


def wrap_dt(n, dt):
    """Reduce an exact integer into a numpy integer dtype (two's complement wrap)."""
    if type(n) is LazyNum and (dt is None or dt.kind in "ui" and dt.lo <= n.lo and n.hi <= dt.hi):
        return n.retyped(dt)
    if dt is None:
        return n if n.dt is None else Num(n.t, n.lo, n.hi, None)
    if dt.kind == "f":
        return Num(n.t, n.lo, n.hi, dt)
    if dt.kind == "O":
        return Num(n.t, n.lo, n.hi, None)
    if dt.kind == "b":
        raise Unsupported("wrap to bool")
    if dt.lo <= n.lo and n.hi <= dt.hi:
        return Num(n.t, n.lo, n.hi, dt)
    b = dt.bits
    if n.t is None:
        v = n.lo & (2 ** b - 1)
        if dt.kind == "i" and v > dt.hi:
            v -= 2 ** b
        return Num(None, v, v, dt)
    t = n.term(max(n.w(), b))
    t = z3.Extract(b - 1, 0, t)
    if dt.kind == "u":
        t = z3.ZeroExt(1, t)
    return Num(t, dt.lo, dt.hi, dt)


def scalar_result_dt(a, b):
    """Result dtype for two scalar Nums (numpy 1.22 rules); None for Python ints."""
    if a.dt is None and b.dt is None:
        return None
    da = a.dt if a.dt is not None else (I64 if -2 ** 63 <= a.lo and a.hi < 2 ** 63 else U64 if a.lo >= 0 and a.hi < 2 ** 64 else OBJ)
    db = b.dt if b.dt is not None else (I64 if -2 ** 63 <= b.lo and b.hi < 2 ** 63 else U64 if b.lo >= 0 and b.hi < 2 ** 64 else OBJ)
    if da is OBJ or db is OBJ:
        return OBJ
    return promote(da, db)


BITOPS = ("and", "or", "xor", "shl", "shr")

_ASNUM_SKIP = (str, bytes, tuple, list, dict, type(None))


def asnum(o):
    if isinstance(o, Num):
        return o
    if isinstance(o, bool):
        return Num(None, int(o), int(o), None)
    if isinstance(o, int):
        return Num(None, o, o, None)
    if isinstance(o, SymBool):
        return Num.of(o.num())
    return None


def binop(op, a, b):
    if isinstance(a, Flt) or isinstance(b, Flt) or isinstance(a, float) or isinstance(b, float):
        return float_mix(op, a, b)
    x, y = asnum(a), asnum(b)
    if x is None or y is None:
        return NotImplemented
    dt = scalar_result_dt(x, y)
    return apply_dt(op, x, y, dt)


def apply_dt(op, x, y, dt):
    if dt is None or dt.kind == "O":
        r = raw(op, Num(x.t, x.lo, x.hi), Num(y.t, y.lo, y.hi))
        return r.lo if r.t is None else r
    if dt.kind == "f":
        if op in BITOPS:
            raise TypeError("ufunc not supported for the input types (%s, %s)" % (x.dt, y.dt))
        if op in ("fdiv", "mod") or (op == "pow" and (x.t is not None or y.t is not None)):
            if x.t is not None or y.t is not None:
                raise Unsupported("float %s on symbolic integers" % op)
        if x.t is None and y.t is None:
            fx, fy = float(x.lo), float(y.lo)
            return {"add": lambda: fx + fy, "sub": lambda: fx - fy, "mul": lambda: fx * fy,
                    "fdiv": lambda: fx // fy, "mod": lambda: fx % fy,
                    "pow": lambda: fx ** fy}[op]()
        r = raw(op, x, y)
        if max(abs(r.lo), abs(r.hi)) >= 2 ** 53:
            raise Unsupported("float64 arithmetic on large symbolic integers")
        return Num(r.t, r.lo, r.hi, F64)
    if op in ("shl", "shr") and y.hi >= dt.bits:
        if y.t is not None:
            raise Unsupported("numpy shift by a possibly too large symbolic count")
        return Num(None, 0, 0, dt) if x.lo >= 0 or op == "shl" else (_ for _ in ()).throw(Unsupported("shift"))
    if op in ("fdiv", "mod") and y.lo <= 0 <= y.hi:
        raise Unsupported("numpy division by zero")
    x, y = wrap_dt(x, dt), wrap_dt(y, dt)
    return wrap_dt(raw(op, x, y), dt)


def compare(op, a, b):
    if isinstance(b, float) and not isinstance(b, bool):
        if b != b:
            return SymBool(c=(op == "ne"))
        if math.isinf(b):
            pos = b > 0
            return SymBool(c={"eq": False, "ne": True, "lt": pos, "le": pos,
                              "gt": not pos, "ge": not pos}[op])
        if b.is_integer():
            b = int(b)
        else:
            fl = math.floor(b)
            if op in ("eq", "ne"):
                return SymBool(c=(op == "ne"))
            if op in ("lt", "le"):
                return compare("le", a, fl)
            return compare("gt", a, fl)
    if isinstance(b, IFlt):
        return iflt_compare(op, a, b)
    if isinstance(b, Flt):
        return flt_compare(op, Flt.of(a, b.dt if b.dt is F64 else F64), b)
    x, y = asnum(a), asnum(b)
    if y is None:
        if op == "eq":
            return NotImplemented
        if op == "ne":
            return NotImplemented
        return NotImplemented
    if op == "gt":
        return compare("lt", y, x)
    if op == "ge":
        return compare("le", y, x)
    if op == "lt":
        if x.hi < y.lo:
            return SymBool(c=True)
        if x.lo >= y.hi:
            return SymBool(c=False)
        w = max(x.w(), y.w())
        return SymBool(x.term(w) < y.term(w))
    if op == "le":
        if x.hi <= y.lo:
            return SymBool(c=True)
        if x.lo > y.hi:
            return SymBool(c=False)
        w = max(x.w(), y.w())
        return SymBool(x.term(w) <= y.term(w))
    if x.hi < y.lo or y.hi < x.lo:
        return SymBool(c=(op == "ne"))
    if x.t is None and y.t is None:
        return SymBool(c=(x.lo == y.lo) == (op == "eq"))
    w = max(x.w(), y.w())
    p, q = x.term(w), y.term(w)
    if p.eq(q):
        return SymBool(c=(op == "eq"))
    return SymBool(p == q) if op == "eq" else SymBool(p != q)


def ite(c, a, b):
    """If c then a else b, for Num / int / bool / SymBool / Flt values of one kind."""
    c = as_bool(c)
    if c.c is not None:
        return a if c.c else b
    if a is b:
        return a
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        x, y = as_bool(a), as_bool(b)
        if x.c is not None and y.c is not None and x.c == y.c:
            return x
        return SymBool(z3.If(c.t, x.term(), y.term()))
    if isinstance(a, (Flt, float)) or isinstance(b, (Flt, float)):
        x, y = Flt.of(a), Flt.of(b)
        return Flt(z3.If(c.t, x.t, y.t), x.dt)
    x, y = asnum(a), asnum(b)
    if x is None or y is None:
        raise Unsupported("ite on %r / %r" % (type(a), type(b)))
    if x.t is None and y.t is None and x.lo == y.lo:
        return a
    lo, hi = min(x.lo, y.lo), max(x.hi, y.hi)
    w = need_width(lo, hi)
    p, q = x.term(w), y.term(w)
    if p.eq(q):
        return a
    return Num(z3.If(c.t, p, q), lo, hi, x.dt if x.dt is not None else y.dt)


def cast(v, dt):
    """Convert a scalar value to dtype dt (numpy astype semantics)."""
    if isinstance(v, (Flt, float)):
        if dt.kind == "f":
            if isinstance(v, float):
                if dt is F64:
                    return v
                import numpy
                return float(numpy.float32(v))
            return Flt(z3.fpFPToFP(RNE, v.t, sort_of(dt)), dt) if v.dt is not dt else v
        if dt is BOOL:
            if isinstance(v, float):
                return SymBool(c=v != 0)
            return SymBool(z3.Not(z3.fpIsZero(v.t)))
        return flt_to_int(v, dt)
    if dt is BOOL:
        if isinstance(v, (bool, SymBool)):
            return as_bool(v)
        return asnum(v) != 0
    n = asnum(v)
    if n is None:
        raise Unsupported("cast %r" % type(v))
    if dt.kind == "f":
        if n.t is None:
            f = float(n.lo)
            if dt is F32:
                import numpy
                f = float(numpy.float32(n.lo))
            return f
        return Flt.of(n, dt)
    return wrap_dt(n, dt)


# ------------------------------------------------------------------ floats

RNE = z3.RNE()


def sort_of(dt):
    return z3.Float32() if dt is F32 else z3.Float64()


class Flt:
    """A possibly symbolic IEEE float.  Concrete floats are Python floats."""
    __slots__ = ("t", "dt", "weak")
    __array_ufunc__ = None

    def __init__(self, t, dt, weak=False):
        self.t = t
        self.dt = dt
        self.weak = weak

    @staticmethod
    def of(v, dt=None):
        if isinstance(v, Flt):
            if dt is not None and v.dt is not dt:
                return Flt(z3.fpFPToFP(RNE, v.t, sort_of(dt)), dt)
            return v
        dt = dt or F64
        if isinstance(v, float):
            return Flt(z3.FPVal(v, sort_of(dt)), dt)
        n = asnum(v)
        if n is None:
            raise Unsupported("float of %r" % type(v))
        if n.t is None:
            return Flt(z3.FPVal(float(n.lo), sort_of(dt)), dt)
        return Flt(z3.fpSignedToFP(RNE, n.term(), sort_of(dt)), dt)

    def __bool__(self):
        return eng().branch(z3.Not(z3.fpIsZero(self.t)))

    def __hash__(self):
        raise Unsupported("hash of a symbolic float")

    def __repr__(self):
        return "<sym %s>" % self.dt.name

    def __format__(self, spec):
        return repr(self)

    def __index__(self):
        raise TypeError("float is not an index")

    def __int__(self):
        raise Unsupported("int() of a symbolic float")

    def __neg__(self):
        return Flt(z3.fpNeg(self.t), self.dt)

    def __abs__(self):
        return Flt(z3.fpAbs(self.t), self.dt)

    def astype(self, dt, **kw):
        import symx.snp as snp
        return cast(self, snp.todt(dt))


def _fop(name, swap=False):
    def f(self, o):
        return float_mix(name, o, self) if swap else float_mix(name, self, o)
    return f


for _n in ("add", "sub", "mul"):
    setattr(Flt, "__%s__" % _n, _fop(_n))
    setattr(Flt, "__r%s__" % _n, _fop(_n, True))
Flt.__truediv__ = lambda s, o: truediv(s, o)
Flt.__rtruediv__ = lambda s, o: truediv(o, s)


class IFlt(Flt):
    """A float64 known to lie between a/d and b/d (a sound abstraction; Engine.float_interval).

    Every rounded operation widens the interval by its relative error bound, so that a claim
    that holds for intervals holds for the floats.  No operation over- or underflows within
    the magnitudes accepted here.
    """
    __slots__ = ("a", "b", "d")

    def __init__(self, a, b, d):
        Flt.__init__(self, None, F64)
        self.a, self.b, self.d = a, b, d

    @staticmethod
    def of(v):
        from fractions import Fraction
        if isinstance(v, IFlt):
            return v
        if isinstance(v, Flt):
            raise Unsupported("mix of float encodings")
        if isinstance(v, float):
            if v != v or math.isinf(v):
                raise Unsupported("interval of %r" % v)
            f = Fraction(v)
            return IFlt(f.numerator, f.numerator, f.denominator)
        n = asnum(v)
        if n is None:
            raise Unsupported("interval of %r" % type(v))
        if max(abs(n.lo), abs(n.hi)) > 2 ** 53:
            raise Unsupported("interval of a large integer")
        x = n.lo if n.t is None else Num(n.t, n.lo, n.hi, None)
        return IFlt(x, x, 1)

    def rounded(self):
        k = 2 ** 53
        a, b = Num.of(self.a), Num.of(self.b)
        ma = -a if a.hi <= 0 else a if a.lo >= 0 else abs(a)
        mb = -b if b.hi <= 0 else b if b.lo >= 0 else abs(b)
        return IFlt(a * k - ma, b * k + mb, self.d * k)


def _fixed(v):
    """A number that earlier decisions have fixed, or that has few values, as such."""
    if isinstance(v, (Num, SymBool)) and asnum(v).t is not None and asnum(v).hi - asnum(v).lo <= 4096:
        e = eng()
        t = z3.simplify(z3.substitute(asnum(v).t, *e.lits.values())) if e.lits else asnum(v).t
        return t.as_signed_long() if z3.is_bv_value(t) else e.concretize(asnum(v))
    return v


def iflt_mix(op, x, y):
    if op in ("mul", "div"):
        concrete = [isinstance(v.a, int) and isinstance(v.b, int) and v.a == v.b for v in (IFlt.of(x), IFlt.of(y))]
        if not concrete[1] and (op == "div" or not concrete[0]):
            y = _fixed(y)
            if op == "mul" and isinstance(y, (Num, IFlt)):
                x = _fixed(x)
    x, y = IFlt.of(x), IFlt.of(y)
    if op in ("add", "sub"):
        d = x.d * y.d
        if op == "add":
            return IFlt(x.a * y.d + y.a * x.d, x.b * y.d + y.b * x.d, d).rounded()
        return IFlt(x.a * y.d - y.b * x.d, x.b * y.d - y.a * x.d, d).rounded()
    if op in ("mul", "div"):
        if op == "mul" and not (isinstance(y.a, int) and isinstance(y.b, int) and y.a == y.b):
            x, y = y, x
        if not (isinstance(y.a, int) and isinstance(y.b, int) and y.a == y.b):
            raise Unsupported("product of symbolic floats")
        c, e = y.a, y.d
        if op == "div":
            if c == 0:
                raise ZeroDivisionError("float division by zero")
            c, e = (e, c) if c > 0 else (-e, -c)
        a, b = (x.a * c, x.b * c) if c >= 0 else (x.b * c, x.a * c)
        return IFlt(a, b, x.d * e).rounded()
    raise Unsupported("float %s" % op)


def iflt_compare(op, x, y):
    x, y = IFlt.of(x), IFlt.of(y)
    if op in ("gt", "ge", "ne"):
        return b_not(as_bool(iflt_compare({"gt": "le", "ge": "lt", "ne": "eq"}[op], x, y)))
    if op == "eq":
        return b_and(iflt_compare("le", x, y), iflt_compare("le", y, x))
    e = eng()
    lo, hi = (x.a * y.d, y.b * x.d), (x.b * y.d, y.a * x.d)
    t = Num.of(lo[0]) < lo[1] if op == "lt" else Num.of(lo[0]) <= lo[1]
    f = Num.of(hi[0]) >= hi[1] if op == "lt" else Num.of(hi[0]) > hi[1]
    if as_bool(f).c is False:
        return SymBool(c=True)     # it cannot be false
    if as_bool(t).c is False:
        return SymBool(c=False)    # it cannot be true
    r = e.fresh_bool("cmp!%d" % e._vc)
    e._vc += 1
    e.assume(b_or(b_not(r), as_bool(t)))
    e.assume(b_or(r, as_bool(f)))
    return r


def iflt_int(x):
    """int() or floor of a float that is not negative."""
    e = eng()
    a, b = Num.of(x.a), Num.of(x.b)
    lo, hi = max(a.lo // x.d, -1), b.hi // x.d
    if a.lo < 0 and e.valid(as_bool(b >= 0)) is not None:
        raise Unsupported("int() of a possibly negative float")
    n = e.fresh_unique("int", max(hi.bit_length(), 1), None, lo=0, hi=max(hi, 0))
    e.assume(as_bool(n * x.d <= b))
    e.assume(as_bool((n + 1) * x.d > a))
    return n


def use_intervals(a, b):
    return isinstance(a, IFlt) or isinstance(b, IFlt) or (Engine.current is not None and Engine.current.float_interval
                                                       and not isinstance(a, Flt) and not isinstance(b, Flt))


def _int_of(t):
    """The integer that an exact conversion to floating point came from, if t is one."""
    if t.num_args() == 2 and t.decl().kind() == z3.Z3_OP_FPA_TO_FP:
        v = t.arg(1)
        if z3.is_bv(v) and v.size() <= (24 if t.sort().sbits() == 24 else 53):
            n = v.size()
            return Num(v, -2 ** (n - 1), 2 ** (n - 1) - 1, None)
    if z3.is_fp_value(t) and not (t.isNaN() or t.isInf()):
        f = float(eval_fp(t))
        if f == int(f) and abs(f) < 2 ** 24:
            return Num.of(int(f))
    return None


def eval_fp(t):
    v = z3.simplify(z3.fpToReal(t))
    return v.numerator_as_long() / v.denominator_as_long()


def flt_compare(op, a, b):
    if use_intervals(a, b):
        return iflt_compare(op, a, b)
    if isinstance(b, Num) or (isinstance(b, int)):
        n = asnum(b)
        if max(abs(n.lo), abs(n.hi)) > 2 ** 53:
            raise Unsupported("float compared with a large integer")
    dt = F64 if (isinstance(a, Flt) and a.dt is F64) or (isinstance(b, Flt) and b.dt is F64) or not (isinstance(a, Flt) and isinstance(b, Flt)) else F32
    x, y = Flt.of(a, dt).t, Flt.of(b, dt).t
    p, q = _int_of(x), _int_of(y)
    if p is not None and q is not None:
        return as_bool(compare(op, p, q))
    f = {"eq": z3.fpEQ, "ne": z3.fpNEQ, "lt": z3.fpLT, "le": z3.fpLEQ,
         "gt": z3.fpGT, "ge": z3.fpGEQ}[op]
    return SymBool(f(x, y))


for _n in ("eq", "ne", "lt", "le", "gt", "ge"):
    setattr(Flt, "__%s__" % _n, (lambda n: lambda self, o: flt_compare(n, self, o))(_n))


def float_mix(op, a, b, dt=None):
    """Scalar float arithmetic.  dt forces the result dtype (array rule)."""
    if dt is None:
        # scalar rule: any float64 / Python float / integer gives float64, unless both float32
        if isinstance(a, Flt) and isinstance(b, Flt) and a.dt is F32 and b.dt is F32:
            dt = F32
        else:
            dt = F64
    ca = isinstance(a, float) or (asnum(a) is not None and asnum(a).t is None)
    cb = isinstance(b, float) or (asnum(b) is not None and asnum(b).t is None)
    if ca and cb:
        import numpy
        T = numpy.float32 if dt is F32 else numpy.float64
        x = T(a if isinstance(a, float) else asnum(a).lo)
        y = T(b if isinstance(b, float) else asnum(b).lo)
        with numpy.errstate(all="ignore"):
            return float({"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y,
                          "div": lambda: x / y, "pow": lambda: x ** y, "fdiv": lambda: x // y,
                          "mod": lambda: x % y}[op]())
    if use_intervals(a, b):
        return iflt_mix(op, a, b)
    x, y = Flt.of(a, dt).t, Flt.of(b, dt).t
    if op == "add":
        return Flt(z3.fpAdd(RNE, x, y), dt)
    if op == "sub":
        return Flt(z3.fpSub(RNE, x, y), dt)
    if op == "mul":
        return Flt(z3.fpMul(RNE, x, y), dt)
    if op == "div":
        return Flt(z3.fpDiv(RNE, x, y), dt)
    raise Unsupported("float %s" % op)


def truediv(a, b, dt=None):
    x, y = asnum(a), asnum(b)
    if x is not None and y is not None and x.dt is None and y.dt is None:
        if y.t is None and y.lo == 0 and dt is None:
            raise ZeroDivisionError("division by zero")
        if x.t is None and y.t is None and dt is None:
            return x.lo / y.lo
    if isinstance(b, float) and b == 0 and isinstance(a, (int, float, Num)) and dt is None and \
            not (isinstance(a, Num) and a.dt is not None):
        raise ZeroDivisionError("float division by zero")
    return float_mix("div", a, b, dt)


def flt_to_int(v, dt):
    """C conversion float -> integer as x86-64 numpy does it (out of range: INT_MIN)."""
    if dt.kind != "i" or dt.bits != 64:
        # numpy goes through a C cast whose out-of-range behaviour is undefined
        if isinstance(v, float):
            if v != v or abs(v) >= 2 ** 62:
                raise Unsupported("undefined float to %s cast" % dt.name)
            return wrap_dt(Num.of(int(v)), dt)
        i = flt_to_int(v, I64)
        return wrap_dt(i, dt)
    if isinstance(v, float):
        if v != v or not (-2.0 ** 63 <= v < 2.0 ** 63):
            return Num(None, dt.lo, dt.lo, dt)
        return Num(None, int(v), int(v), dt)
    s = sort_of(v.dt)
    lo, hi = z3.FPVal(-2.0 ** 63, s), z3.FPVal(2.0 ** 63, s)
    ok = z3.And(z3.fpGEQ(v.t, lo), z3.fpLT(v.t, hi))
    t = z3.If(ok, z3.fpToSBV(z3.RTZ(), v.t, z3.BitVecSort(64)), z3.BitVecVal(-2 ** 63, 64))
    return Num(t, dt.lo, dt.hi, dt)

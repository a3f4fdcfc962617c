"""The scenario host: the interface between a property's scenario and the code under test.

A scenario is a Python function scenario(h, **config).  It obtains inputs from h, runs the
real functions of /repo on them and states claims.  The same scenario runs in two hosts:

SymHost   (this module, CPython + z3): inputs are symbolic, /repo's source is executed
          symbolically, claims are decided by the solver for every value.
RealHost  (replay/replay.py, the project's own interpreter and numpy): inputs are the values of
          a counterexample, /repo's modules are imported for real, claims are evaluated.
"""
import sys
import traceback

import z3

from . import core, load, snp
from .core import (Engine, Num, SymBool, Flt, Unsupported, PathAbort, BudgetExceeded, as_bool, asnum,
                   b_all, b_and, b_any, b_not, b_or, ite, DTS)


class Skip(PathAbort):
    """A scenario configuration that does not apply to the tree."""


class HarnessError(BaseException):
    pass


class SymHost:
    symbolic = True

    def __init__(self, engine, stubs=None, dirs=("transcoder",)):
        self.e = engine
        self.stubs = {}
        self.dirs = dirs
        self.W = None
        self.claims = []
        self.covers = []
        self.tables = []
        self._rnd = 0
        self.rnd_fixed = None

    # -- world

    def begin(self):
        """Called at the start of every path."""
        self.claims = []
        self.covers = []
        self.tables = []
        self._rnd = 0
        self.rnd_fixed = None
        snp.FLOAT_FORKS = False
        load.HEX.clear()

    def world(self, dirs=("transcoder",), stubs=None, fresh=False, builtin_overrides=None):
        """Create (once per configuration unless fresh) the world of loaded modules."""
        if self.W is None or fresh:
            st = dict(default_stubs())
            st.update(stubs or {})
            st = {k: (load.stub(k, **v) if isinstance(v, dict) else v) for k, v in st.items()}
            self.W = load.World(dirs=dirs, stubs=st, builtin_overrides=builtin_overrides)
            self.W.random.hook = self._random
            self.W.np.random.hook = lambda lo, hi: self._npr(lo, hi)
        return self.W

    def module(self, name, **attrs):
        """A stub module; anything not given is outside the encoding."""
        return load.stub(name, **attrs)

    def load(self, name):
        if self.W is None:
            self.world()
        m = self.W.load(name)
        if m is None:
            raise HarnessError("no module %s" % name)
        return m

    @property
    def np(self):
        if self.W is None:
            self.world()
        return self.W.np

    def patch(self, obj, name, value):
        setattr(obj, name, value)

    def open_files(self, files):
        """Serve open(path) from a dict of path suffix -> list of text lines."""
        raise NotImplementedError

    # -- inputs

    def u8(self, name):
        return self.e.fresh(name, 8, DTS["uint8"])

    def num(self, name, dtype, lo=None, hi=None):
        dt = DTS[dtype]
        l = dt.lo if lo is None else lo
        h = dt.hi if hi is None else hi
        return self._rng(name, l, h, dt)

    def int(self, name, lo, hi):
        return self._rng(name, lo, hi, None)

    def _rng(self, name, lo, hi, dt):
        if lo >= 0:
            bits = max(hi.bit_length(), 1)
            return self.e.fresh(name, bits, dt, lo=lo, hi=hi)
        bits = core.need_width(lo, hi)
        return self.e.fresh(name, bits, dt, lo=lo, hi=hi, signed=True)

    def bool(self, name):
        return self.e.fresh_bool(name)

    def f64(self, name):
        v = z3.FP(name, z3.Float64())
        self.e.vars[name] = v
        return Flt(v, core.F64)

    def f32(self, name):
        v = z3.FP(name, z3.Float32())
        self.e.vars[name] = v
        return Flt(v, core.F32)

    def u8_array(self, name, shape, cells=None, base=0, mask=0xff):
        """uint8 array; the given cells (all by default) are symbolic, others equal base."""
        import numpy
        a = numpy.empty(shape, dtype=object)
        if callable(base):
            for i in numpy.ndindex(*shape):
                a[i] = base(i)
        else:
            a[...] = base
        bits = mask.bit_length()
        for i in (numpy.ndindex(*shape) if cells is None else cells):
            a[i] = self.e.fresh("%s%s" % (name, list(i)), bits, DTS["uint8"])
        return snp.Arr(a, DTS["uint8"])

    def i32_array(self, name, shape, cells, base=0, lo=0, hi=2 ** 31 - 1):
        import numpy
        a = numpy.empty(shape, dtype=object)
        if callable(base):
            for i in numpy.ndindex(*shape):
                a[i] = base(i)
        else:
            a[...] = base
        for i in cells:
            a[i] = self._rng("%s%s" % (name, list(i)), lo, hi, DTS["int32"])
        return snp.Arr(a, DTS["int32"])

    def array(self, values, dtype):
        return snp.array(values, dtype=dtype)

    def copy(self, a):
        return snp.Arr(a.a.copy(), a.dt)

    def table(self, name, rows, bits, sep=False, dtype="uint16", hi=None):
        """A distance table with arbitrary contents: symmetric, zero diagonal.

        sep: entries off the diagonal are nonzero."""
        dt = DTS[dtype]
        fs = [z3.Function("%s_%d" % (name, o), z3.BitVecSort(2 * bits), z3.BitVecSort(dt.bits))
              for o in range(rows)]
        log = {}
        top = dt.hi if hi is None else hi

        def build(o, n):
            t = n.term(2 * bits + 1)
            t = z3.simplify(z3.Extract(2 * bits - 1, 0, t))
            key = (o, t.get_id())
            if key in log:
                return log[key][1].t
            a = z3.Extract(2 * bits - 1, bits, t)
            b = z3.Extract(bits - 1, 0, t)
            lt = z3.ULT(a, b)
            v = fs[o](z3.Concat(z3.If(lt, a, b), z3.If(lt, b, a)))
            same = z3.simplify(a == b)
            if z3.is_true(same):
                r = z3.BitVecVal(0, dt.bits + 1)
            else:
                if sep:
                    Engine.current.assume_t(z3.Implies(z3.Not(same), v != 0))
                if top != dt.hi:
                    Engine.current.assume_t(z3.ULE(v, top))
                if z3.is_false(same):
                    r = z3.ZeroExt(1, v)
                else:
                    r = z3.simplify(z3.ZeroExt(1, z3.If(same, z3.BitVecVal(0, dt.bits), v)))
            log[key] = (t, Num(r, 0, top, dt))
            return r

        def get(o, n):
            if n.t is None:
                if n.lo >> bits == n.lo & (2 ** bits - 1):
                    return Num(None, 0, 0, dt)
            return core.LazyNum([lambda: build(o, n)], 0, top, dt)
        tab = snp.SymTable(get, rows, 2 ** (2 * bits), dt)
        self.tables.append((name, log))
        return tab

    def fn8(self, name, bits):
        """An arbitrary function from bits-wide numbers to bytes."""
        f = z3.Function(name, z3.BitVecSort(bits), z3.BitVecSort(8))
        log = {}

        def get(a):
            a = asnum(a)
            t = z3.BitVecVal(a.lo, bits) if a.t is None else z3.simplify(z3.Extract(bits - 1, 0, a.term(bits + 1)))
            k = (0, t.get_id())
            if k not in log:
                log[k] = (t, Num(z3.ZeroExt(1, f(t)), 0, 255, None))
            return log[k][1]
        self.tables.append((name, log))
        return get

    def player(self):
        from . import player
        return player.prepare()

    def machine(self, *a, **k):
        from . import m6502
        return m6502.Machine(self, *a, **k)

    def threads(self, run):
        """Threads of the code under test exist (a path cannot be split then)."""
        self.e.no_split = run

    def unsupported(self, what):
        return Unsupported(what)

    def table_fn(self, rows, bits, f, dtype="uint16"):
        """A distance table given by a function f(byte offset, a, b)."""
        dt = DTS[dtype]

        def get(o, n):
            n = Num(n.t, n.lo, n.hi, None) if n.t is not None else n.lo
            return core.cast(asnum(f(o, n >> bits, n & (2 ** bits - 1))), dt)
        return snp.SymTable(get, rows, 2 ** (2 * bits), dt)

    def _random(self, limit):
        if self.rnd_fixed is not None:
            self._rnd += 1
            return self.rnd_fixed % limit
        v = self.e.fresh("rnd_%d" % self._rnd, max((limit - 1).bit_length(), 1), None, lo=0, hi=limit - 1)
        self._rnd += 1
        return v

    def _npr(self, lo, hi):
        v = self._random(hi - lo)
        v = Num.of(v) + lo
        return v if isinstance(v, Num) else Num.of(v)

    # -- value helpers (exact integer semantics)

    def py(self, v):
        """Exact (unbounded) integer value."""
        if isinstance(v, (snp.Arr,)):
            v = v._one()
        n = asnum(v)
        if n is None:
            raise HarnessError("not an integer: %r" % (v,))
        if type(n) is core.LazyNum:
            return n.retyped(None)
        return n.lo if n.t is None else Num(n.t, n.lo, n.hi, None)

    def concrete(self, v):
        """The value if it is the same for every input of this path, else None."""
        if isinstance(v, bool) or v is None:
            return v
        if isinstance(v, SymBool):
            return v.c
        n = asnum(v)
        if n is None:
            return v
        return n.lo if n.t is None else None

    def fork(self, cond):
        return bool(cond)

    def forkint(self, v):
        """Split the path over the values of v."""
        n = asnum(v)
        return n.__index__()

    def eq(self, a, b):
        r = core.compare("eq", asnum(a) if asnum(a) is not None else a, b) if not isinstance(a, (float, Flt)) else core.flt_compare("eq", a, b) if isinstance(a, Flt) or isinstance(b, Flt) else a == b
        r2 = as_bool(r)
        return SymBool(c=False) if r2 is None else r2

    def all(self, xs):
        return b_all([as_bool(x) for x in xs])

    def any(self, xs):
        xs = list(xs)
        return b_any(xs) if xs else SymBool(c=False)

    def not_(self, x):
        return b_not(as_bool(x))

    def and_(self, *xs):
        return self.all(xs)

    def or_(self, *xs):
        return self.any(xs)

    def implies(self, a, b):
        return b_or(b_not(as_bool(a)), as_bool(b))

    def ite(self, c, a, b):
        return ite(as_bool(c), a, b)

    def arr_eq(self, a, b, cells=None):
        """All (given) elements equal."""
        import numpy
        x, y = snp.asarray(a), snp.asarray(b)
        if x.shape != y.shape:
            return SymBool(c=False)
        out = []
        xf = x.a.reshape(-1) if cells is None else [x.a[c] for c in cells]
        yf = y.a.reshape(-1) if cells is None else [y.a[c] for c in cells]
        for p, q in zip(xf, yf):
            if p is q:
                continue
            if type(p) in (int, bool) and type(q) in (int, bool):
                if p != q:
                    return SymBool(c=False)
                continue
            p, q = snp._scalar(p, x.dt), snp._scalar(q, y.dt)
            if isinstance(p, Num) and isinstance(q, Num) and p.t is not None and q.t is not None and \
                    p.t.eq(q.t):
                continue
            if isinstance(p, SymBool) or isinstance(q, SymBool):
                out.append(b_not(core.b_xor(as_bool(p), as_bool(q))) if as_bool(p) is not None and as_bool(q) is not None else as_bool(asnum(p) == asnum(q)))
                continue
            out.append(as_bool(core.compare("eq", p, q)))
        return b_all(out)

    def items(self, a):
        """Elements of an array as exact integers (flat list)."""
        a = snp.asarray(a)
        return [self.py(snp._scalar(x, a.dt)) for x in a.a.reshape(-1)]

    def at(self, a, idx):
        a = snp.asarray(a)
        return self.py(snp._scalar(a.a[idx], a.dt))

    def put(self, a, idx, v):
        """Store a value into an array cell directly (test set-up)."""
        a.a[idx] = snp._conv(v if not isinstance(v, SymBool) else v, a.dt)

    load_errors = ()

    def hex_text(self, v):
        """Hexadecimal text of a number (a placeholder that int(text, 16) turns into it)."""
        n = asnum(v)
        if n.t is None:
            return "0x%X" % n.lo
        k = "%04X" % (0x1000 + len(load.HEX) // 4)
        for t in (k, "0x" + k, k.lower(), "0x" + k.lower()):
            load.HEX[t] = self.py(v)
        while len(load.HEX) % 4:
            load.HEX[len(load.HEX)] = None
        return "0x" + k

    def f32c(self, v):
        return Flt(z3.FPVal(v, z3.Float32()), core.F32)

    def bytes(self, xs):
        return load.SymBytes(xs)

    def flat(self, a):
        """Elements of an array as scalars (flat list)."""
        a = snp.asarray(a)
        return [snp._scalar(x, a.dt) for x in a.a.reshape(-1)]

    def float_forks(self):
        """Split paths on the larger of two symbolic floats."""
        snp.FLOAT_FORKS = True

    def float_intervals(self):
        """Decide float64 arithmetic by intervals with rounding error bounds."""
        self.e.float_interval = True

    def indices(self, shape):
        import numpy
        return list(numpy.ndindex(*shape))

    def shape(self, a):
        return tuple(snp.asarray(a).shape)

    def dtype(self, a):
        return snp.asarray(a).dt.name

    # -- claims

    def assume(self, c):
        self.e.assume(c if isinstance(c, (SymBool, bool)) else as_bool(c))

    def claim(self, name, c, key=None):
        r = as_bool(c)
        if r is None:
            raise HarnessError("claim %s is not a truth value: %r" % (name, c))
        self.claims.append((name, r, key))

    def cover(self, name, c=True):
        """A situation that some input must reach (guards against vacuous claims)."""
        self.covers.append((name, as_bool(c)))

    def raises(self, excs, fn, *a, **k):
        """True if fn raises one of excs, False if it returns."""
        try:
            fn(*a, **k)
        except excs:
            return True
        return False

    def list_of(self, it, n):
        out = []
        it = iter(it)
        for _ in range(n):
            try:
                out.append(next(it))
            except StopIteration:
                break
        return out


def default_stubs():
    return {
        "colormath": {"color_objects": load.stub("colormath.color_objects", sRGBColor=lambda *a, **k: a)},
    }


# ------------------------------------------------------------------ running one configuration

class FnTrace:
    """Records which functions of /repo were executed symbolically."""

    def __init__(self, repo):
        self.repo = repo
        self.fns = set()

    def __enter__(self):
        mon = sys.monitoring
        self.tool = mon.PROFILER_ID
        try:
            mon.use_tool_id(self.tool, "fntrace")
        except ValueError:
            self.tool = None
            return self

        def start(code, off):
            fn = code.co_filename
            if fn.startswith(self.repo):
                if code.co_name != "<module>":
                    self.fns.add("%s:%s" % (fn[len(self.repo) + 1:], code.co_qualname))
            return mon.DISABLE
        mon.register_callback(self.tool, mon.events.PY_START, start)
        mon.set_events(self.tool, mon.events.PY_START)
        return self

    def __exit__(self, *a):
        if self.tool is not None:
            sys.monitoring.set_events(self.tool, 0)
            sys.monitoring.register_callback(self.tool, sys.monitoring.events.PY_START, None)
            sys.monitoring.free_tool_id(self.tool)
            sys.monitoring.restart_events()


def repo_frame(exc, repo):
    """Was the exception raised while executing code of the repository?"""
    tb = exc.__traceback__
    last = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(repo):
            last = "repo"
        elif "/scen/" in fn:
            last = "scen"
        tb = tb.tb_next
    return last == "repo"


def model_inputs(host, e, m):
    out = {}
    for n, v in e.vars.items():
        r = m.eval(v, model_completion=True)
        if z3.is_fp(r):
            bv = z3.simplify(z3.fpToIEEEBV(r)) if not z3.is_fp_value(r) or True else r
            b = m.eval(z3.fpToIEEEBV(v), model_completion=True)
            # keep the exact bit pattern
            out[n] = {"fp": b.as_long(), "bits": b.size()}
        elif z3.is_bv_value(r):
            out[n] = {"u": r.as_long(), "bits": r.size()}
        else:
            out[n] = {"b": z3.is_true(r)}
    tabs = {}
    for name, log in host.tables:
        t = tabs.setdefault(name, [])
        for (o, _), (pt, r) in log.items():
            pair = m.eval(pt, model_completion=True).as_long()
            val = r.lo if r.t is None else m.eval(r.t, model_completion=True).as_signed_long()
            t.append([o, pair, val])
    return {"vars": out, "tables": tabs}


def witness_model(e):
    """Some inputs that take the current path, as varied as a few random choices make them."""
    import random
    rnd = random.Random(len(e.pc))
    vs = sorted(e.vars.items())
    extra = []
    for n, v in rnd.sample(vs, min(12, len(vs))):
        if z3.is_bv(v):
            c = v == rnd.getrandbits(v.size())
        elif z3.is_bool(v):
            c = v if rnd.random() < 0.5 else z3.Not(v)
        else:
            continue
        if e._check(*(extra + [c])):
            extra.append(c)
    e._check(*extra)
    return e.last.model()


def run_config(fn, cfg, budget_s=600, query_ms=300000, known=(), witnesses=0):
    """Decide one configuration.  Returns a result dictionary."""
    import time
    t0 = time.time()
    e = Engine(timeout_s=budget_s, query_ms=query_ms)
    h = SymHost(e)
    tr = FnTrace(load.REPO)

    def body():
        h.begin()
        fn(h, **cfg)

    def report(m, failing):
        acc = e.acc
        acc["status"] = "violated"
        acc["cex"] = {"claims": failing, "inputs": model_inputs(h, e, m)}
        raise core.StopExploration()

    def handle(kind, val):
        acc = e.acc
        acc["functions"] |= tr.fns
        if kind == "exc":
            if not repo_frame(val, load.REPO):
                acc["status"] = "error"
                acc["error"] = "".join(traceback.format_exception(val))[-3000:]
                raise core.StopExploration()
            m = e.valid(False)
            if m is None:
                return
            acc["trace"] = "".join(traceback.format_exception(val))[-3000:]
            report(m, ["exception: %s: %s" % (type(val).__name__, str(val)[:200])])
        q0 = e.n_queries
        discharge()
        if e.n_queries == q0 and not e._check():
            raise HarnessError("a path whose condition is unsatisfiable was explored")
        if len(e.acc["witness"]) < witnesses:
            e.acc["witness"].append(model_inputs(h, e, witness_model(e)))

    def discharge():
        """Decide the claims stated so far on this path (before it is split further)."""
        acc = e.acc
        if h.covers or h.claims:
            acc["functions"] |= tr.fns
        for name, c in h.covers:
            if not acc["covers"].get(name):
                ok = c.c if c.c is not None else e._check(c.t)
                acc["covers"][name] = bool(ok)
        h.covers = []
        cl, h.claims = h.claims, []
        acc["claims"] += len(cl)
        acc["names"].update(n for n, _, _ in cl)
        unk = [(n, c) for n, c, k in cl if k is None or k not in known]
        for n, c, k in cl:
            if k is not None and k in known and k not in acc["known"]:
                if e.valid(c) is not None:
                    acc["known"].add(k)
        m = e.valid_all([c for _, c in unk]) if unk else None
        if m is not None:
            failing = []
            for n, c in unk:
                ok = c.c if c.c is not None else z3.is_true(m.eval(c.t, model_completion=True))
                if not ok:
                    failing.append(n)
            report(m, failing[:10])
    e.on_split = discharge

    with tr:
        acc = e.explore(body, handle)
    res = dict(acc)
    res["cfg"] = cfg
    res["functions"] = sorted(acc["functions"])
    res["names"] = sorted(acc["names"])
    res["known"] = sorted(acc["known"])
    res["wall_s"] = time.time() - t0
    return res

"""The scenario host that runs the real code on the values of a counterexample.

Runs under the project's own interpreter (/opt/venv/bin/python) with the real numpy.
"""
import importlib
import os
import struct
import sys
import types

import numpy as np

# modules that the standard library imports on demand (so that they see the real system)
import argparse, collections, concurrent.futures, contextlib, copy, csv, datetime, functools, gettext, hashlib, heapq  # noqa
import inspect, io, itertools, json, locale, logging, pathlib, pickle, queue, random, re, shutil, signal, socket  # noqa
import socketserver, string, subprocess, tempfile, textwrap, threading, time, traceback, typing, urllib.request  # noqa
import uuid, warnings, weakref, zipfile, glob, fnmatch, bisect, linecache, multiprocessing, asyncio, decimal  # noqa


class HarnessError(BaseException):
    pass


class Skip(BaseException):
    pass


class AssumeFailed(BaseException):
    pass


class Violated(Exception):
    pass


REPO = os.environ.get("VERIF_REPO", "/repo")


class RealTable:
    """Stands for a distance table: the values of the counterexample, a default elsewhere."""

    def __init__(self, rows, bits, entries, dtype, row=None, fn=None):
        self.fn = fn
        self.rows, self.bits, self.entries, self.np_dtype, self.row = rows, bits, entries, np.dtype(dtype), row
        n = 2 ** (2 * bits)
        self.shape = (rows, n) if row is None else (n,)
        self.ndim = len(self.shape)
        self.dtype = self.np_dtype

    def astype(self, d, **k):
        return RealTable(self.rows, self.bits, self.entries, d, self.row, self.fn)

    def copy(self):
        return self

    def __len__(self):
        return self.shape[0]

    def _one(self, o, p):
        p = int(p)
        if not 0 <= p < 2 ** (2 * self.bits):
            raise IndexError("index %d is out of bounds" % p)
        a, b = p >> self.bits, p & (2 ** self.bits - 1)
        if self.fn:
            return self.fn(o, a, b)
        if a == b:
            return 0
        v = self.entries.get((o, p))
        if v is None:
            v = self.entries.get((o, (b << self.bits) + a))
        return 7 if v is None else v

    def __getitem__(self, key):
        if self.row is None:
            if isinstance(key, tuple):
                return self[key[0]][key[1]]
            r = int(key)
            if r < 0:
                r += self.rows
            if not 0 <= r < self.rows:
                raise IndexError("row %d" % r)
            return RealTable(self.rows, self.bits, self.entries, self.np_dtype, r, self.fn)
        if isinstance(key, np.ndarray):
            if key.dtype.kind not in "ui":
                raise IndexError("not an integer index")
            f = [self._one(self.row, x) for x in key.reshape(-1)]
            return np.array(f, dtype=self.np_dtype).reshape(key.shape)
        if isinstance(key, (float, np.floating)):
            raise IndexError("only integers")
        return self.np_dtype.type(self._one(self.row, key))


def _conv(v):
    return v


# modules that the interpreter itself uses: replaced only while the code under test is imported
SYSTEM = {"os", "subprocess", "threading", "queue", "time", "pathlib", "shutil", "socketserver", "socket", "io", "sys"}
REAL = {n: importlib.import_module(n) for n in SYSTEM}


class RealHost:
    symbolic = False

    def __init__(self, inputs):
        self._system = {}
        self.inp = inputs["vars"]
        self.tabs = inputs.get("tables", {})
        self.failed = []
        self.checked = []
        self.np = np
        self._rnd = 0
        self.rnd_fixed = None
        self._worldmade = False

    # -- world

    def world(self, dirs=("transcoder",), stubs=None, fresh=False, builtin_overrides=None):
        if not self._worldmade or fresh:
            for d in dirs:
                sys.path.insert(0, os.path.join(REPO, d))
            if fresh:
                for n, m in list(sys.modules.items()):
                    f = getattr(m, "__file__", None) or ""
                    if f.startswith(REPO + "/"):
                        del sys.modules[n]
            for name, attrs in (stubs or {}).items():
                if name == "numpy":
                    continue
                if isinstance(attrs, dict):
                    m = types.ModuleType(name)
                    for k, v in attrs.items():
                        setattr(m, k, v)
                    attrs = m
                if name.split(".")[0] in SYSTEM:
                    self._system[name] = attrs
                else:
                    sys.modules[name] = attrs
            if builtin_overrides:
                import builtins
                for k, v in builtin_overrides.items():
                    setattr(builtins, k, v)
            import random
            random.getrandbits = lambda n: self._random(2 ** n)
            random.randrange = lambda a, b=None: self._random(a) if b is None else a + self._random(b - a)
            random.randint = lambda a, b: a + self._random(b - a + 1)

            def nprandint(low, high=None, size=None, dtype=int):
                if high is None:
                    low, high = 0, low
                if size is None:
                    return low + self._random(high - low)
                n = int(np.prod(size))
                return np.array([low + self._random(high - low) for _ in range(n)],
                                dtype=dtype).reshape(size)
            np.random.randint = nprandint
            self._worldmade = True
        return self

    def load(self, name):
        if not self._worldmade:
            self.world()
        import importlib
        saved = {n: sys.modules.get(n) for n in self._system}
        sys.modules.update(self._system)
        try:
            return importlib.import_module(name)
        except Exception as e:
            if any(isinstance(e, t) for t in self.load_errors):
                raise
            raise HarnessError("importing %s: %r" % (name, e))
        finally:
            for n, m in saved.items():
                if m is None:
                    sys.modules.pop(n, None)
                else:
                    sys.modules[n] = m

    load_errors = ()

    def module(self, name, **attrs):
        m = types.ModuleType(name)
        for k, v in attrs.items():
            setattr(m, k, v)

        def missing(attr):
            if attr.startswith("__"):
                raise AttributeError(attr)
            if name.split(".")[0] in SYSTEM:
                # constants
                v = getattr(REAL.get(name), attr, None)
                if isinstance(v, (str, int, type(None))) and v is not None:
                    return v
            raise HarnessError("stub %s has no attribute %s" % (name, attr))
        m.__getattr__ = missing
        return m

    def patch(self, obj, name, value):
        setattr(obj, name, value)

    def _random(self, limit):
        if self.rnd_fixed is not None:
            self._rnd += 1
            return self.rnd_fixed % limit
        v = self._get("rnd_%d" % self._rnd, 0)
        self._rnd += 1
        return v % limit

    # -- inputs

    def _get(self, name, default=None):
        d = self.inp.get(name)
        if d is None:
            return 0 if default is None else default
        return d["u"]

    def u8(self, name):
        return np.uint8(self._get(name))

    def num(self, name, dtype, lo=None, hi=None):
        ii = np.iinfo(dtype)
        l = int(ii.min) if lo is None else lo
        return np.dtype(dtype).type(self._rng(name, l))

    def int(self, name, lo, hi):
        return self._rng(name, lo)

    def _rng(self, name, lo):
        d = self.inp.get(name)
        if d is None:
            return max(lo, 0)
        v = d["u"]
        if lo < 0 and v >= 1 << (d["bits"] - 1):
            v -= 1 << d["bits"]
        return v

    def bool(self, name):
        d = self.inp.get(name)
        return bool(d and d["b"])

    def f64(self, name):
        d = self.inp.get(name)
        return np.float64(0) if d is None else np.frombuffer(struct.pack("<Q", d["fp"]), dtype="<f8")[0]

    def f32(self, name):
        d = self.inp.get(name)
        return np.float32(0) if d is None else np.frombuffer(struct.pack("<I", d["fp"]), dtype="<f4")[0]

    def u8_array(self, name, shape, cells=None, base=0, mask=0xff):
        a = np.zeros(shape, dtype=np.uint8)
        if callable(base):
            for i in np.ndindex(*shape):
                a[i] = base(i)
        else:
            a[...] = base
        for i in (np.ndindex(*shape) if cells is None else cells):
            a[i] = self._get("%s%s" % (name, list(i)))
        return a

    def i32_array(self, name, shape, cells, base=0, lo=0, hi=2 ** 31 - 1):
        a = np.zeros(shape, dtype=np.int32)
        if callable(base):
            for i in np.ndindex(*shape):
                a[i] = base(i)
        else:
            a[...] = base
        for i in cells:
            a[i] = self._rng("%s%s" % (name, list(i)), lo)
        return a

    def array(self, values, dtype):
        return np.array(values, dtype=dtype)

    def copy(self, a):
        return np.array(a)

    def table(self, name, rows, bits, sep=False, dtype="uint16", hi=None):
        ent = {(o, p): v for o, p, v in self.tabs.get(name, [])}
        return RealTable(rows, bits, ent, dtype)

    def fn8(self, name, bits):
        ent = {p: v for o, p, v in self.tabs.get(name, [])}
        return lambda a: ent.get(int(a) & (2 ** bits - 1), 0)

    def player(self):
        from symx import player
        return player.prepare()

    def machine(self, *a, **k):
        import m6502real
        return m6502real.Machine(self, *a, **k)

    def threads(self, run):
        pass

    def unsupported(self, what):
        return HarnessError(what)

    def table_fn(self, rows, bits, f, dtype="uint16"):
        return RealTable(rows, bits, None, dtype, fn=f)

    # -- value helpers

    def py(self, v):
        if isinstance(v, np.ndarray):
            v = v.item()
        if isinstance(v, (bool, np.bool_)):
            return int(v)
        if int(v) != v:
            raise HarnessError("not an integer: %r" % (v,))
        return int(v)

    def concrete(self, v):
        if isinstance(v, (np.bool_,)):
            return bool(v)
        if isinstance(v, np.integer):
            return int(v)
        return v

    def fork(self, c):
        return bool(c)

    def forkint(self, v):
        return int(v)

    def eq(self, a, b):
        return bool(a == b)

    def all(self, xs):
        return all([bool(x) for x in xs])

    def any(self, xs):
        return any([bool(x) for x in xs])

    def not_(self, x):
        return not bool(x)

    def and_(self, *xs):
        return self.all(xs)

    def or_(self, *xs):
        return self.any(xs)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def arr_eq(self, a, b, cells=None):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return False
        if cells is not None:
            return all([bool(x[c] == y[c]) for c in cells])
        return bool(np.all(x == y))

    def items(self, a):
        return [int(x) for x in np.asarray(a).reshape(-1)]

    def at(self, a, idx):
        return int(a[idx])

    def put(self, a, idx, v):
        a[idx] = v

    def hex_text(self, v):
        return "0x%04X" % int(v)

    def f32c(self, v):
        return np.float32(v)

    def bytes(self, xs):
        return bytes([int(x) for x in xs])

    def flat(self, a):
        return list(np.asarray(a).reshape(-1))

    def float_forks(self):
        pass

    def float_intervals(self):
        """Decide float64 arithmetic by intervals with rounding error bounds."""
        pass

    def indices(self, shape):
        import numpy
        return list(numpy.ndindex(*shape))

    def shape(self, a):
        return tuple(np.asarray(a).shape)

    def dtype(self, a):
        return np.asarray(a).dtype.name

    # -- claims

    def assume(self, c):
        if not bool(c):
            raise AssumeFailed()

    def claim(self, name, c, key=None):
        self.checked.append(name)
        if not bool(c):
            self.failed.append(name)

    def cover(self, name, c=True):
        pass

    def raises(self, excs, fn, *a, **k):
        try:
            fn(*a, **k)
        except excs:
            return True
        return False

    def list_of(self, it, n):
        out = []
        it = iter(it)
        for _ in range(n):
            try:
                out.append(next(it))
            except StopIteration:
                break
        return out

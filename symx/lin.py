"""Translation of a bit-vector query into integer arithmetic.

Every bit-vector term is read as a signed integer; its interval is computed on the way, and an
operation is only translated if its exact result fits the width (so nothing wraps and both
readings agree).  Anything else raises CannotTranslate and the query is decided as it stands.
"""
import z3

from .core import need_width


class CannotTranslate(Exception):
    pass


class Lin:
    def __init__(self, ranges):
        self.ranges = ranges   # variable name -> interval assumed on the path
        self.vars = {}         # variable name -> (bit-vector, Int)
        self.side = []
        self.ints = {}
        self.bools = {}

    def var(self, v, unsigned):
        n = v.decl().name()
        if n not in self.vars:
            i = z3.Int(n + "!i")
            w = v.size()
            lo, hi = (0, 2 ** w - 1) if unsigned else (-2 ** (w - 1), 2 ** (w - 1) - 1)
            r = self.ranges.get(n)
            if r is not None:
                lo, hi = max(lo, r[0]), min(hi, r[1])
            self.side += [i >= lo, i <= hi]
            self.vars[n] = (v, i, unsigned, lo, hi)
        v, i, u, lo, hi = self.vars[n]
        if u != unsigned:
            raise CannotTranslate(n)
        return i, lo, hi

    def int(self, t):
        k = t.get_id()
        r = self.ints.get(k)
        if r is None:
            e, lo, hi = self._int(t)
            if need_width(lo, hi) > t.size():
                raise CannotTranslate("may wrap: %s %d..%d in %d %s" % (t.decl(), lo, hi, t.size(), str(t)[:600]))
            r = self.ints[k] = (e, lo, hi, t)
        return r[:3]

    def _int(self, t):
        if z3.is_bv_value(t):
            v = t.as_signed_long()
            return z3.IntVal(v), v, v
        d = t.decl().kind()
        ch = t.children()
        if d == z3.Z3_OP_UNINTERPRETED and not ch:
            return self.var(t, False)
        if d == z3.Z3_OP_ZERO_EXT:
            c = ch[0]
            if c.decl().kind() == z3.Z3_OP_UNINTERPRETED and not c.children():
                return self.var(c, True)
            e, lo, hi = self.int(c)
            if lo < 0:
                raise CannotTranslate("zero extension")
            return e, lo, hi
        if d == z3.Z3_OP_SIGN_EXT:
            return self.int(ch[0])
        if d == z3.Z3_OP_EXTRACT:
            if t.params()[1] != 0:
                raise CannotTranslate("extract")
            return self.int(ch[0])
        if d == z3.Z3_OP_CONCAT and len(ch) == 2 and z3.is_bv_value(ch[1]):
            e, lo, hi = self.int(ch[0])
            k, c = 2 ** ch[1].size(), ch[1].as_long()
            return e * k + c, lo * k + c, hi * k + c
        if d in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL):
            e, lo, hi = self.int(ch[0])
            for c in ch[1:]:
                f, l, h = self.int(c)
                if d == z3.Z3_OP_BADD:
                    e, lo, hi = e + f, lo + l, hi + h
                else:
                    if lo != hi and l != h:
                        raise CannotTranslate("product")
                    q = [lo * l, lo * h, hi * l, hi * h]
                    e, lo, hi = e * f, min(q), max(q)
            return e, lo, hi
        if d == z3.Z3_OP_BSUB:
            e, lo, hi = self.int(ch[0])
            f, l, h = self.int(ch[1])
            return e - f, lo - h, hi - l
        if d == z3.Z3_OP_BNEG:
            e, lo, hi = self.int(ch[0])
            return -e, -hi, -lo
        if d == z3.Z3_OP_ITE:
            e, lo, hi = self.int(ch[1])
            f, l, h = self.int(ch[2])
            return z3.If(self.bool(ch[0]), e, f), min(lo, l), max(hi, h)
        raise CannotTranslate(str(t.decl()))

    def bool(self, t):
        k = t.get_id()
        r = self.bools.get(k)
        if r is None:
            r = self.bools[k] = (self._bool(t), t)
        return r[0]

    def _bool(self, t):
        d = t.decl().kind()
        ch = t.children()
        if d in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE) or (d == z3.Z3_OP_UNINTERPRETED and not ch):
            return t
        if d == z3.Z3_OP_NOT:
            return z3.Not(self.bool(ch[0]))
        if d == z3.Z3_OP_AND:
            return z3.And([self.bool(c) for c in ch])
        if d == z3.Z3_OP_OR:
            return z3.Or([self.bool(c) for c in ch])
        if d == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.bool(ch[0]), self.bool(ch[1]))
        if d == z3.Z3_OP_XOR:
            return z3.Xor(self.bool(ch[0]), self.bool(ch[1]))
        if d == z3.Z3_OP_ITE:
            return z3.If(self.bool(ch[0]), self.bool(ch[1]), self.bool(ch[2]))
        if d in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and len(ch) == 2:
            if z3.is_bv(ch[0]):
                r = self.int(ch[0])[0] == self.int(ch[1])[0]
            else:
                r = self.bool(ch[0]) == self.bool(ch[1])
            return r if d == z3.Z3_OP_EQ else z3.Not(r)
        if d in (z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ):
            a, b = self.int(ch[0])[0], self.int(ch[1])[0]
            return {z3.Z3_OP_SLT: a < b, z3.Z3_OP_SLEQ: a <= b, z3.Z3_OP_SGT: a > b, z3.Z3_OP_SGEQ: a >= b}[d]
        raise CannotTranslate(str(t.decl()))


def decide(ts, ranges, timeout):
    """('unsat'|'sat'|'unknown', assignment as bit-vector equations)."""
    lin = Lin(ranges)
    fs = [lin.bool(t) for t in ts]
    s = z3.SolverFor("QF_LIA")
    s.set("timeout", timeout)
    s.add(*fs)
    s.add(*lin.side)
    r = s.check()
    if r != z3.sat:
        return str(r), None
    m = s.model()
    eqs = [v == z3.BitVecVal(m.eval(i, model_completion=True).as_long(), v.size()) for v, i, _, _, _ in lin.vars.values()]
    eqs += [t == m.eval(t, model_completion=True) for t in {id(x): x for f in fs for x in consts(f)}.values()
            if z3.is_bool(t)]
    return "sat", eqs


def consts(f):
    seen, out, st = set(), [], [f]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and not t.children():
            out.append(t)
        st.extend(t.children())
    return out

"""Scenarios for the video encoder (properties E01 to E05)."""
from . import screen_s
from .screen_s import hole, pattern, base_mem, window, group, Mem, with_table, pal_of


def stubs(h):
    io = h.module("skvideo.io")
    img = h.module("PIL.Image", Image=object)
    return {"skvideo": h.module("skvideo", io=io), "skvideo.io": io, "PIL": h.module("PIL", Image=img),
            "PIL.Image": img}


class Grabber:
    input_frame_rate = 30


class View:
    """Memory contents for the oracles in screen_s."""

    def __init__(self, h, dhgr, main, aux):
        self.h, self.dhgr, self.m, self.x = h, dhgr, main, aux

    def byte(self, p, o, aux=False):
        return self.h.at(self.x if aux else self.m, (p, o))


class Sub:
    """A view with one byte replaced."""

    def __init__(self, view, p, o, aux, v):
        self.view, self.key, self.v = view, (p, o, bool(aux)), v
        self.h, self.dhgr = view.h, view.dhgr

    def byte(self, p, o, aux=False):
        return self.v if (p, o, bool(aux)) == self.key else self.view.byte(p, o, aux)


def touched(dhgr, aux, cells, both):
    """Offsets (of the bank being encoded) whose window contains a symbolic cell."""
    out = set()
    for p, o in cells:
        for q in ((o,) if dhgr and not both else (o - 1, o, o + 1)):
            if 0 <= q < 256 and not hole(q):
                out.add((p, q))
    return sorted(out)


class Run:
    """One Video with a symbolic window of source and target bytes."""

    def __init__(self, h, dhgr, aux, cells, sep, prio=True, hi=4000, rnd=None, other=False,
                 tcells=()):
        self.h, self.dhgr, self.aux = h, dhgr, aux
        h.world(stubs=stubs(h))
        self.s = s = h.load("screen")
        video, vm = h.load("video"), h.load("video_mode")
        self.tab = with_table(h, dhgr, sep=sep, hi=hi)
        h.rnd_fixed = rnd
        mask = 0x7f if dhgr else 0xff
        pal = pal_of(h)
        self.vid = v = video.Video(Grabber(), ticks_per_second=14700.,
                                   mode=vm.VideoMode.DHGR if dhgr else vm.VideoMode.HGR, palette=pal)
        self.cells = cells = [tuple(c) for c in cells]
        tcells = [tuple(c) for c in tcells]   # cells symbolic in the target only
        near = touched(dhgr, aux, cells + tcells, other)

        def bank(name, salt, sym):
            a = h.u8_array(name, (32, 256), (cells + tcells if name[0] == "t" else cells) if sym else [], base_mem(dhgr, salt), mask)
            return a
        # source
        sm = bank("s", 1, not aux or other)
        tm = bank("t", 1, not aux or other)
        sx = tx = None
        if dhgr:
            sx = bank("sx", 2, aux or other)
            tx = bank("tx", 2, aux or other)
        v.memory_map.page_offset = sm
        if dhgr:
            v.aux_memory_map.page_offset = sx
        v.pixelmap._pack()
        self.tm, self.tx = s.MemoryMap(1, tm), s.MemoryMap(1, tx) if dhgr else None
        if dhgr:
            self.target = s.DHGRBitmap(palette=pal, main_memory=self.tm, aux_memory=self.tx)
        else:
            self.target = s.HGRBitmap(palette=pal, main_memory=self.tm)
        self.tv = View(h, dhgr, h.copy(tm), h.copy(tx) if dhgr else None)
        self.sv = View(h, dhgr, h.copy(sm), h.copy(sx) if dhgr else None)
        self.cand = near
        # pending priorities left by earlier frames
        if prio:
            u = h.i32_array("u", (32, 256), near, hi=1 << 20)
            if aux:
                v.aux_update_priority = u
            else:
                v.update_priority = u
        self.u0 = h.copy(v.aux_update_priority if aux else v.update_priority)
        self.memo = {}

    @property
    def prio(self):
        return self.vid.aux_update_priority if self.aux else self.vid.update_priority

    @property
    def bank(self):
        return self.vid.aux_memory_map.page_offset if self.aux else self.vid.memory_map.page_offset

    def dist(self, o, a, b):
        """Table distance of two windows of offset o."""
        h = self.h
        n = 13 if self.dhgr else 14
        bo = (0 if self.aux else 1) + 2 * (o & 1) if self.dhgr else o & 1
        v = a * 2 ** n + b
        return h.py(self.tab[bo][v] if h.symbolic else self.tab[bo][h.np.uint64(v)])

    def weight(self, p, o):
        """Difference of the screen at the start of the frame and the target at (p, o)."""
        k = (p, o)
        if k not in self.memo:
            self.memo[k] = self.dist(o, window(self.sv, p, o, self.aux), window(self.tv, p, o, self.aux))
        return self.memo[k]

    def residual(self, p, o, content):
        return self.dist(o, window(Sub(self.tv, p, o, self.aux, content), p, o, self.aux),
                         window(self.tv, p, o, self.aux))

    def start_prio(self, p, o):
        w = self.weight(p, o)
        return self.h.ite(self.h.eq(w, 0), 0, self.h.at(self.u0, (p, o)) + w)

    def pending0(self):
        return [(c, self.h.not_(self.h.eq(self.weight(*c), 0))) for c in self.cand]

    def frame(self):
        return self.vid.encode_frame(self.target, is_aux=self.aux)


def conc(h, v):
    """A page or offset of a store as a plain integer (splits the path if needed)."""
    return h.forkint(v)


def ops_of(h, it, n):
    out = []
    for _ in range(n):
        page, content, offs = next(it)
        out.append((conc(h, page), h.py(content), [conc(h, o) for o in offs], len(offs)))
        yield out[-1]


def mkrun(h, dhgr, aux, cells, wide, **k):
    return Run(h, dhgr, aux, cells, **k) if wide is None else Wide(h, dhgr, aux, **wide)


def e01(h, dhgr, aux, cells=(), nops=None, rnd=None, other=False, prio=True, tcells=(), wide=None):
    r = mkrun(h, dhgr, aux, cells, wide, tcells=tcells, sep=False, rnd=rnd, other=other, prio=prio)
    n = 0
    for page, content, offs, ln in ops_of(h, r.frame(), len(r.cand) + 2 if nops is None else nops):
        n += 1
        h.claim("a store's page is on the screen", 32 <= page < 64)
        h.claim("a store has four offsets", ln == 4)
        h.claim("offsets are bytes", all(0 <= o < 256 for o in offs))
        h.claim("the content is a byte", h.and_(content >= 0, content < (128 if dhgr else 256)))
        if 32 <= page < 64 and all(0 <= o < 256 for o in offs):
            h.claim("the content is the target's value at the first offset",
                    h.eq(content, r.tv.byte(page - 32, offs[0], aux)))
            h.claim("no offset is a screen hole", not any(hole(o) for o in offs))
    h.cover("several different stores", len(r.cand) > 1)


def repack_eq(h, r, main, aux):
    """The encoder's packed form equals the packed form of the given memory."""
    v = View(h, r.dhgr, main, aux)
    pk = r.vid.pixelmap.packed
    cs = sorted({(p, c) for p, o in r.cand for c in range(max(0, o // 2 - 2), min(128, o // 2 + 3))} |
                {(0, 0), (0, 1)})
    return h.all([h.eq(h.at(pk, (p, c)), group(v, p, c)) for p, c in cs])


def e02(h, dhgr, aux, cells=(), rnd=None, other=False, sep=False, stop=None, again=None, prio=False, tcells=(), wide=None):
    """stop: abandon the frame after so many stores and encode again (for bank `again`)."""
    r = mkrun(h, dhgr, aux, cells, wide, tcells=tcells, sep=sep, rnd=rnd, other=other, prio=prio)
    mem = {False: h.copy(r.sv.m), True: h.copy(r.sv.x) if dhgr else None}
    it = r.frame()
    n = len(r.cand) + 2 if stop is None else stop
    total = n if again is None else n + 2
    bank = aux
    for k in range(total):
        if k == n:
            bank = again
            it = r.vid.encode_frame(r.target, is_aux=again)
        page, content, offs = next(it)
        page = conc(h, page)
        c = h.py(content)
        for o in offs:
            h.put(mem[bank], (page - 32, conc(h, o)), content)
        h.claim("the encoder's screen is the player's after %d stores" % (k + 1), h.and_(
            h.arr_eq(r.vid.memory_map.page_offset, mem[False]),
            h.arr_eq(r.vid.aux_memory_map.page_offset, mem[True]) if dhgr else True))
        h.claim("the encoder's packed form is that of the player's screen after %d stores" % (k + 1),
                repack_eq(h, r, mem[False], mem[True]))
    h.cover("reached")


def e03(h, dhgr, aux, cells=(), rnd=None, other=False, prio=True, tcells=(), wide=None):
    r = mkrun(h, dhgr, aux, cells, wide, tcells=tcells, sep=True, rnd=rnd, other=other, prio=prio)
    pend = dict(r.pending0())
    pri = {c: r.start_prio(*c) for c in r.cand}
    it = r.frame()
    stored = set()
    prev = h.copy(r.bank)
    npend = 0
    for c in r.cand:
        npend = npend + h.ite(pend[c], 1, 0)
    for k in range(len(r.cand) + 1):
        page, content, offs = next(it)
        p = conc(h, page) - 32
        offs = [conc(h, o) for o in offs]
        work = k < npend   # stores made after all the work is done are padding
        if k == len(r.cand):
            break
        first = (p, offs[0])
        for o in set(offs):
            if (p, o) in pend:
                h.claim("only bytes whose window differs are stored to while there is work",
                        h.or_(pend[p, o], h.eq(h.at(prev, (p, o)), h.at(r.bank, (p, o)))))
            else:
                h.claim("a byte that already matches keeps its value",
                        h.eq(h.at(prev, (p, o)), h.py(content)))
        if k == 0:
            h.claim("the first store goes to a byte of highest priority", h.implies(
                work, h.all([pri.get(first, 0) >= pri[c] for c in r.cand])))
        elif first not in stored:
            h.claim("an untouched byte is stored only if no untouched byte is more urgent", h.implies(
                h.not_(h.eq(pri.get(first, 0), 0)),
                h.all([pri.get(first, 0) >= pri[c] for c in r.cand if c not in stored])))
        stored |= {(p, o) for o in offs}
        h.claim("the first offset of a store receives its target value",
                h.eq(h.py(content), r.tv.byte(p, offs[0], aux)))
        prev = h.copy(r.bank)
        done = (k + 1) >= npend
        vis = [i for i in h.indices((32, 256)) if not hole(i[1])]
        h.claim("after one store per differing byte the bank shows the target",
                h.implies(done, h.arr_eq(r.bank, r.tv.x if aux else r.tv.m, cells=vis)))
    h.cover("all candidates differ", h.eq(npend, len(r.cand)))
    h.cover("nothing differs", h.eq(npend, 0))


def e04(h, dhgr, aux, cells=(), rnd=None, other=False, nops=None, tcells=(), wide=None):
    r = mkrun(h, dhgr, aux, cells, wide, tcells=tcells, sep=False, rnd=rnd, other=other, prio=True)
    want = {c: r.start_prio(*c) for c in r.cand}
    npend = 0
    for c in r.cand:
        npend = npend + h.ite(h.eq(r.weight(*c), 0), 0, 1)
    it = r.frame()
    work = True
    for k in range(len(r.cand) if nops is None else nops):
        # is there any byte left to do?
        left = h.any([h.not_(h.eq(want[c], 0)) for c in r.cand])
        page, content, offs = next(it)
        p = conc(h, page) - 32
        offs = [conc(h, o) for o in offs]
        c = h.py(content)
        for i, o in enumerate(offs):
            if (p, o) not in want:
                continue
            if o == offs[0]:
                want[p, o] = h.ite(left, 0, want[p, o])
            elif o not in offs[:i]:
                want[p, o] = h.ite(left, r.residual(p, o, c), want[p, o])
        got = r.prio
        h.claim("priorities of the bytes that can differ after %d stores" % (k + 1),
                h.all([h.eq(h.at(got, q), want[q]) for q in r.cand]))
        base = h.copy(r.u0)
        for q in r.cand:
            h.put(base, q, 0)
        rest = h.copy(got)
        for q in r.cand:
            h.put(rest, q, 0)
        h.claim("no other byte and no screen hole has a priority", h.arr_eq(rest, base))
    h.cover("a resolved byte", h.any([h.and_(h.eq(r.weight(*c), 0), h.not_(h.eq(h.at(r.u0, c), 0)))
                                      for c in r.cand]))


def e05(h, dhgr, aux, cells=(), rnd=None, other=False, prio=False, nops=2, tcells=(), wide=None):
    r = mkrun(h, dhgr, aux, cells, wide, tcells=tcells, sep=False, rnd=rnd, other=other, prio=prio)
    it = r.frame()
    cleared = set()
    for k in range(nops):
        before = h.copy(r.prio) if k else None
        page, content, offs = next(it)
        p = conc(h, page) - 32
        offs = [conc(h, o) for o in offs]
        c = h.py(content)

        def pend(q):
            if k == 0:
                return h.not_(h.eq(r.weight(*q), 0))
            return h.not_(h.eq(h.at(before, q), 0))
        left = h.any([pend(q) for q in r.cand])
        if not h.fork(left):
            h.claim("with nothing to do the store repeats one offset", len(set(offs)) == 1)
            return
        sec = []
        for o in offs[1:]:
            if o != offs[0]:
                h.claim("no secondary offset appears twice", o not in sec)
                sec.append(o)
        h.claim("unused slots come last and repeat the first offset",
                offs[1:] == sec + [offs[0]] * (3 - len(sec)))
        h.claim("at most three additional offsets", len(sec) <= 3 and len(offs) == 4)
        gain = {}
        for q in r.cand:
            if q[0] == p and q[1] != offs[0] and q not in cleared:
                gain[q[1]] = r.weight(*q) - r.residual(p, q[1], c)
        for o in sec:
            h.claim("secondary offsets are visible bytes that differ", not hole(o) and (p, o) in r.cand)
            if o in gain:
                h.claim("secondary offsets are still pending", pend((p, o)))
                h.claim("storing at a secondary offset reduces its error", gain[o] > 0)
            else:
                h.claim("a byte that was already set exactly is not stored to again", False)
        sec = [o for o in sec if o in gain]
        for a, b in zip(sec, sec[1:]):
            h.claim("secondary offsets come in order of their gain", gain[a] >= gain[b])
        for o in gain:
            if o not in sec:
                elig = h.and_(pend((p, o)), gain[o] > 0)
                if len(sec) < 3:
                    h.claim("slots stay unused only if no offset gains", h.not_(elig))
                else:
                    h.claim("the offsets of greatest gain are chosen", h.implies(elig, gain[sec[-1]] >= gain[o]))
        h.cover("a secondary store", len(sec) > 0)
        cleared.add((p, offs[0]))
    h.cover("reached")


# ------------------------------------------------------------------ configurations

def weighted(o, a, b):
    """A concrete distance: weighted number of differing bits, or how far the values are apart."""
    x = a ^ b
    r = 0
    for i in range(14):
        r = r + ((x >> i) & 1) * (5 + i)
    return r


class Wide(Run):
    """Several bytes of one page differ; the byte of highest priority has a symbolic target."""

    def __init__(self, h, dhgr, aux, page, offs, bits, prios=None):
        self.h, self.dhgr, self.aux = h, dhgr, aux
        h.world(stubs=stubs(h))
        self.s = s = h.load("screen")
        video, vm = h.load("video"), h.load("video_mode")
        tab = h.table_fn(4 if dhgr else 2, 13 if dhgr else 14, weighted)
        h.patch(s.Bitmap, "edit_distances", classmethod(lambda cls, *a, **k: tab))
        self.tab = tab
        h.rnd_fixed = 0
        pal = pal_of(h)
        self.vid = v = video.Video(Grabber(), ticks_per_second=14700.,
                                   mode=vm.VideoMode.DHGR if dhgr else vm.VideoMode.HGR, palette=pal)
        tgt = {(page, o): (o * 37 + 11) & 0x7f for o in offs}
        first = (page, offs[0])

        def bank(name, cells, f):
            return h.u8_array(name, (32, 256), [], f, 0xff)
        zero = lambda i: 0  # noqa
        sm = bank("s", [], zero)
        sx = bank("sx", [], zero)
        tm = bank("t", [], (lambda i: tgt.get(tuple(i), 0)) if not aux else zero)
        tx = bank("tx", [], (lambda i: tgt.get(tuple(i), 0)) if aux else zero)
        val = h.int("content", 0, 2 ** bits - 1)
        h.put(tx if aux else tm, first, val)
        v.memory_map.page_offset = sm
        if dhgr:
            v.aux_memory_map.page_offset = sx
        v.pixelmap._pack()
        self.tm, self.tx = s.MemoryMap(1, tm), s.MemoryMap(1, tx) if dhgr else None
        if dhgr:
            self.target = s.DHGRBitmap(palette=pal, main_memory=self.tm, aux_memory=self.tx)
        else:
            self.target = s.HGRBitmap(palette=pal, main_memory=self.tm)
        self.tv = View(h, dhgr, h.copy(tm), h.copy(tx) if dhgr else None)
        self.sv = View(h, dhgr, h.copy(sm), h.copy(sx) if dhgr else None)
        self.cells = [(page, o) for o in offs]
        self.cand = touched(dhgr, aux, self.cells, not dhgr)
        u = h.i32_array("u", (32, 256), [], lambda i: 100000 if tuple(i) == first else 0)
        if prios:
            for k, o in enumerate(prios):
                h.put(u, (page, o), 90000 - 1000 * k)
        if aux:
            v.aux_update_priority = u
        else:
            v.update_priority = u
        self.u0 = h.copy(u)
        self.memo = {}


HG = [[[3, 40]], [[0, 0]], [[9, 119]], [[31, 247]]]
DH = [[[3, 40], [3, 41], [17, 0]], [[0, 0], [31, 247]], [[8, 119], [8, 128]]]


def _base(tier, **kw):
    out = []
    for c in HG if tier == "thorough" else HG[:2] + HG[3:]:
        out.append(dict(dhgr=False, aux=False, cells=c, rnd=0, **kw))
    for i, c in enumerate(DH):
        for aux in (True, False):
            if tier == "quick" and i and aux == bool(i & 1):
                continue
            out.append(dict(dhgr=True, aux=aux, cells=c, rnd=0, **kw))
    # the bytes of the other bank change as well
    out.append(dict(dhgr=True, aux=True, cells=[[3, 40]], rnd=0, other=True, **kw))
    # symbolic tie breaking
    out.append(dict(dhgr=True, aux=False, cells=[[5, 17], [5, 18]], rnd=None, **kw))
    # screen holes of the target hold arbitrary bytes
    out.append(dict(dhgr=True, aux=False, cells=[[8, 119]], tcells=[[8, 120], [8, 127]], rnd=0, **kw))
    out.append(dict(dhgr=False, aux=False, cells=[], tcells=[[8, 120], [8, 127]], rnd=0, **kw))
    if tier == "thorough":
        out.append(dict(dhgr=True, aux=False, cells=[[3, 40]], rnd=0, other=True, **kw))
        out.append(dict(dhgr=False, aux=False, cells=[[3, 40], [30, 0]], rnd=0, **kw))
        out.append(dict(dhgr=False, aux=False, cells=[[3, 40], [3, 41]], rnd=0, **kw))
        out.append(dict(dhgr=True, aux=True, cells=[[3, 40], [3, 41], [3, 90], [3, 92]], rnd=0, **kw))
        out.append(dict(dhgr=True, aux=False, cells=[[3, 40], [3, 41], [3, 90], [4, 92]], rnd=0, **kw))
        out.append(dict(dhgr=True, aux=True, cells=[[5, 17], [5, 18], [5, 30]], rnd=None, **kw))
    return out


OFFS = [20, 2, 5, 8, 11, 14, 17]
MANY = [20] + [o for o in range(0, 120, 3) if o != 20]


def _wide(tier, **kw):
    out = [dict(dhgr=dhgr, aux=aux, wide=dict(page=4, offs=OFFS, bits=7), **kw)
           for dhgr, aux in ((True, True), (False, False), (True, False))]
    if tier == "thorough":
        out += [dict(dhgr=dhgr, aux=aux, wide=dict(page=31, offs=MANY, bits=7), **kw)
                for dhgr, aux in ((True, True), (False, False), (True, False))]
    return out


def _again(tier):
    out = []
    for again in (True, False):
        out.append(dict(dhgr=True, aux=True, cells=[[3, 40]], rnd=0, stop=1, again=again, other=True))
    out.append(dict(dhgr=False, aux=False, cells=[[0, 0]], rnd=0, stop=1, again=False))
    return out


def _jobs(fn, cfgs):
    return [("encoder_s", fn, c) for c in cfgs]


def e01_configs(tier):
    return _jobs("e01", _base(tier) + _wide(tier, nops=2 if tier == "quick" else 8)) + _history(tier, "e01")


def e02_configs(tier):
    return _jobs("e02", _base(tier) + _again(tier) + _wide(tier, stop=3 if tier == "quick" else 8)) + _history(tier, "e02")


def e03_configs(tier):
    return _jobs("e03", _base(tier) + _wide("quick")) + _history(tier, "e03")


def e04_configs(tier):
    return _jobs("e04", _base(tier) + _wide(tier, nops=3 if tier == "quick" else 8)) + _history(tier, "e04")


def e05_configs(tier):
    return _jobs("e05", _base(tier) + _wide(tier, nops=2 if tier == "quick" else 8)) + _history(tier, "e05")


# ------------------------------------------------------------------ long histories

def picture(seed, i, dhgr, p, o):
    """A byte of the i-th picture: runs of equal bytes with some noise."""
    if hole(o):
        return 0
    k = (o + seed) // (3 + p % 4)
    v = (k * 29 + p * 17 + i * 71 + seed * 13) % 11 * 23
    if (o * 7 + p * 5 + i) % 9 == 0:
        v += o * 31 + 5
    return v & (0x7f if dhgr else 0xff)


class History:
    """One Video through several frames whose pictures differ nearly everywhere on some pages.

    segs: [(frame, aux, stores or None)] in order: encode frame for the bank until so many stores
    (None: until the work is done and two more). sym: (frame, aux, page, offset, bits) is the symbolic byte."""

    def __init__(self, h, dhgr, pages, seed, sym, prio=None):
        self.h, self.dhgr, self.pages = h, dhgr, pages
        h.world(stubs=stubs(h))
        self.s = h.load("screen")
        video, vm = h.load("video"), h.load("video_mode")
        tab = h.table_fn(4 if dhgr else 2, 13 if dhgr else 14, weighted)
        self.tab = tab
        cls = self.s.DHGRBitmap if dhgr else self.s.HGRBitmap
        h.patch(cls, "edit_distances", lambda *a, **k: tab)
        h.rnd_fixed = 0
        self.pal = pal_of(h)
        self.vid = video.Video(Grabber(), ticks_per_second=14700.,
                               mode=vm.VideoMode.DHGR if dhgr else vm.VideoMode.HGR, palette=self.pal)
        self.seed, self.sym = seed, sym
        self.val = h.int("content", 0, 2 ** sym[4] - 1)
        self.cells = [(p, o) for p in pages for o in range(256) if not hole(o)]
        self.mem = {a: self.bank(None) for a in ((False, True) if dhgr else (False,))}
        self.want = {a: {} for a in self.mem}
        if prio:
            u = h.int("prio", 0, 1 << 20)
            h.put(self.prio(prio[0]), (prio[1], prio[2]), u)
            self.want[prio[0]][prio[1], prio[2]] = h.py(u)
        self.frames = {}

    def bank(self, i, aux=False):
        h, v = self.h, None
        on = set(self.pages)
        a = h.u8_array("p%s%s" % (i, aux), (32, 256), [], lambda q: picture(
            self.seed + (50 if aux else 0), i, self.dhgr, *q) if i is not None and q[0] in on else 0, 0xff)
        if i is not None and (i, aux) == tuple(self.sym[:2]):
            h.put(a, (self.sym[2], self.sym[3]), self.val)
        return a

    def prio(self, aux):
        return self.vid.aux_update_priority if aux else self.vid.update_priority

    def shown(self, aux):
        return (self.vid.aux_memory_map if aux else self.vid.memory_map).page_offset

    def target(self, i):
        if i not in self.frames:
            m = self.bank(i)
            x = self.bank(i, True) if self.dhgr else None
            s = self.s
            tm = s.MemoryMap(1, m)
            t = s.DHGRBitmap(palette=self.pal, main_memory=tm, aux_memory=s.MemoryMap(1, x)) if self.dhgr else \
                s.HGRBitmap(palette=self.pal, main_memory=tm)
            self.frames[i] = t, View(self.h, self.dhgr, self.h.copy(m), self.h.copy(x) if self.dhgr else None)
        return self.frames[i]

    def dist(self, aux, o, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return weighted(o, a, b)
        n = 13 if self.dhgr else 14
        bo = (0 if aux else 1) + 2 * (o & 1) if self.dhgr else o & 1
        v = a * 2 ** n + b
        return self.h.py(self.tab[bo][v] if self.h.symbolic else self.tab[bo][self.h.np.uint64(v)])


class Best:
    """The greatest of a changing set of priorities, some of them symbolic."""

    def __init__(self, pri):
        self.con = sorted((v, c) for c, v in pri.items() if isinstance(v, int))
        self.sym = {c: v for c, v in pri.items() if not isinstance(v, int)}
        self.gone = set()

    def drop(self, c):
        self.gone.add(c)
        self.sym.pop(c, None)

    def all(self):
        while self.con and self.con[-1][1] in self.gone:
            self.con.pop()
        return [self.con[-1][0]] * bool(self.con) + list(self.sym.values())


def history(h, which, dhgr, pages, seed, segs, sym, prio=None):
    r = History(h, dhgr, pages, seed, sym, prio)
    cells, mem = r.cells, r.mem
    for si, (fi, aux, limit) in enumerate(segs):
        target, tv = r.target(fi)
        sv = View(h, dhgr, h.copy(mem[False]), h.copy(mem[True]) if dhgr else None)
        want = r.want[aux]
        # what the frame starts from
        tw = {(p, o): window(tv, p, o, aux) for p, o in cells}
        weight = {(p, o): r.dist(aux, o, window(sv, p, o, aux), tw[p, o]) for p, o in cells}
        start = {}
        npend = 0
        for c in cells:
            z = h.eq(weight[c], 0)
            want[c] = start[c] = h.ite(z, 0, want.get(c, 0) + weight[c]) if not isinstance(weight[c], int) or \
                not isinstance(want.get(c, 0), int) else (want.get(c, 0) + weight[c] if weight[c] else 0)
            npend = npend + h.ite(z, 0, 1) if not isinstance(weight[c], int) else npend + (weight[c] != 0)
        npend = conc(h, npend)
        best = Best(start)
        left = {c for c in cells if h.fork(h.not_(h.eq(want[c], 0)))}
        resid = {}

        def residual(p, o, c):
            if not isinstance(c, int):
                return r.dist(aux, o, window(Sub(tv, p, o, aux, c), p, o, aux), tw[p, o])
            if (p, o, c) not in resid:
                resid[p, o, c] = r.dist(aux, o, window(Sub(tv, p, o, aux, c), p, o, aux), tw[p, o])
            return resid[p, o, c]
        it = r.vid.encode_frame(target, is_aux=aux)
        cleared, stored = set(), set()
        k = 0
        extra = 2
        tag = "segment %d: " % si
        while limit is None or k < limit:
            if limit is None and (not left or k > npend):
                # done, or not done with as many stores as differing bytes
                if not extra:
                    break
                extra -= 1
            page, content, offs = next(it)
            p = conc(h, page) - 32
            offs = [conc(h, o) for o in offs]
            c = h.py(content)
            busy = bool(left)
            k += 1
            first = (p, offs[0])
            sec = [o for i, o in enumerate(offs) if o not in offs[:i] and o != offs[0]]
            if which == "e01":
                h.claim(tag + "a store's page is on the screen", 0 <= p < 32)
                h.claim(tag + "a store has four offsets that are bytes", len(offs) == 4 and all(0 <= o < 256 for o in offs))
                h.claim(tag + "no offset is a screen hole", not any(hole(o) for o in offs))
                h.claim(tag + "the content is the target's value at the first offset", h.eq(c, tv.byte(p, offs[0], aux)))
            if which == "e03":
                h.claim(tag + "as many stores as differing bytes are enough", not busy or k <= npend)
                if busy:
                    h.claim(tag + "the first offset is among the bytes that differ", first in start)
                    if first not in stored:
                        h.claim(tag + "the most urgent byte is stored first", h.and_(
                            h.not_(h.eq(start.get(first, 0), 0)), h.all([start.get(first, 0) >= v for v in best.all()])))
                    for o in sec:
                        h.claim(tag + "only bytes that differ are stored to", (p, o) in left)
                h.claim(tag + "the first offset receives its target value", h.eq(c, tv.byte(p, offs[0], aux)))
            if which == "e05" and busy:
                gain = {o: weight[q] - residual(p, o, c) for q in left for o in [q[1]]
                        if q[0] == p and o != offs[0] and q not in cleared}
                h.claim(tag + "unused slots come last and repeat the first offset",
                        offs[1:] == sec + [offs[0]] * (3 - len(sec)))
                for o in sec:
                    h.claim(tag + "a secondary offset is pending and gains",
                            o in gain and gain[o] > 0)
                g = [o for o in sec if o in gain]
                h.claim(tag + "secondary offsets come in order of their gain",
                        h.all([gain[a] >= gain[b] for a, b in zip(g, g[1:])]))
                rest = [v for o, v in gain.items() if o not in sec]
                if len(sec) < 3:
                    h.claim(tag + "slots stay unused only if no offset gains", h.all([h.not_(v > 0) for v in rest]))
                elif len(g) == 3:
                    m = max([v for v in rest if isinstance(v, int)], default=0)
                    h.claim(tag + "the offsets of greatest gain are chosen", h.all(
                        [gain[g[-1]] >= v for v in [m] + [v for v in rest if not isinstance(v, int)]]))
            if which == "e05" and not busy:
                h.claim(tag + "with nothing to do the store repeats one offset", len(set(offs)) == 1)
            # the effect of the store
            for o in offs:
                h.put(mem[aux], (p, o), content)
            if busy:
                want[first] = 0
                for o in sec:
                    want[p, o] = residual(p, o, c)
                for q in [first] + [(p, o) for o in sec]:
                    stored.add(q)
                    best.drop(q)
                    if q == first or h.fork(h.eq(want[q], 0)):
                        left.discard(q)
                    else:
                        left.add(q)
            cleared.add(first)
            now = sorted({(p, o) for o in offs})
            if which == "e02":
                h.claim(tag + "the encoder's bytes are the player's",
                        h.all([h.eq(h.at(r.shown(aux), q), h.at(mem[aux], q)) for q in now]))
            if which == "e04" and busy:
                h.claim(tag + "priorities of the stored bytes", h.all([h.eq(h.at(r.prio(aux), q), want[q]) for q in now]))
            if k % 64 == 0 or k == limit or limit is None and not left and extra == 2:
                if which == "e02":
                    h.claim(tag + "the encoder's screen is the player's", h.and_(
                        h.arr_eq(r.vid.memory_map.page_offset, mem[False]),
                        h.arr_eq(r.vid.aux_memory_map.page_offset, mem[True]) if dhgr else True))
                    v = View(h, dhgr, mem[False], mem[True] if dhgr else None)
                    pk = r.vid.pixelmap.packed
                    h.claim(tag + "the encoder's packed form is that of the player's screen",
                            h.all([h.eq(h.at(pk, (q, x)), group(v, q, x)) for q in pages for x in range(128)]))
                if which == "e04":
                    h.claim(tag + "priorities of all bytes", h.all(
                        [h.eq(h.at(r.prio(a), q), r.want[a].get(q, 0)) for a in mem for q in h.indices((32, 256))]))
        if limit is None and which == "e03":
            vis = [i for i in h.indices((32, 256)) if not hole(i[1])]
            h.claim(tag + "the bank shows the target when the work is done",
                    h.arr_eq(mem[aux], tv.x if aux else tv.m, cells=vis))
    h.cover("reached")


def _history(tier, which):
    full = list(range(32))
    out = [
        # nearly all bytes of both banks differ; one bank converges completely
        dict(dhgr=True, pages=full, seed=3, segs=[[0, False, 300], [0, True, 300], [1, True, 300], [1, False, None]],
             sym=[1, True, 8, 100, 1]),
        dict(dhgr=False, pages=full, seed=4, segs=[[0, False, 400], [1, False, None]], sym=[1, False, 17, 200, 1]),
        # many frames, abandoned and restarted, priorities piling up
        dict(dhgr=True, pages=[0, 8, 31], seed=5, segs=[[i // 3, bool(i & 1), 60 + i % 7] for i in range(24)] + [[7, True, None]],
             sym=[2, False, 8, 100, 2]),
        dict(dhgr=False, pages=[0, 31], seed=6, segs=[[i, False, 70] for i in range(12)] + [[11, False, None]],
             sym=[3, False, 31, 247, 2]),
    ]
    if tier == "thorough":
        for s in range(4):
            out.append(dict(dhgr=True, pages=full, seed=7 + s, segs=[[0, True, 900], [0, False, 50], [1 + s, True, None], [1, False, None]],
                            sym=[0, True, 3 + 7 * s, 130 + s, 2]))
            out.append(dict(dhgr=False, pages=full, seed=7 + s, segs=[[0, False, None], [1 + s, False, 2000], [5, False, None]],
                            sym=[0, False, 3 + 7 * s, 130 + s, 2]))
        out.append(dict(dhgr=True, pages=[4], seed=1, segs=[[0, True, 10], [1, True, 40]], sym=[1, True, 4, 20, 1], prio=[True, 4, 33]))
        out.append(dict(dhgr=False, pages=[4], seed=1, segs=[[0, False, 10], [1, False, 40]], sym=[1, False, 4, 20, 1], prio=[False, 4, 33]))
    return [("encoder_s", "history", dict(which=which, **c)) for c in out]

"""Scenarios for the screen representation (properties C01 to C09)."""

# ------------------------------------------------------------------ oracles
# Written from the Apple II documentation; they do not use the code under test.


def hole(o):
    """Offsets 120..127 and 248..255 of every page hold no visible byte."""
    return (o & 127) >= 120


def row_x(o):
    """(row within the page's six rows, x byte) of a visible offset."""
    half, r = o >> 7, o & 127
    return half * 3 + r // 40, r % 40


def pattern(p, o, salt=0):
    return (p * 37 + o * 91 + (o >> 3) * 13 + salt * 59 + (p * o) % 11) & 0xff


def base_mem(mode_dhgr, salt):
    def f(i):
        p, o = i
        if hole(o):
            return 0
        v = pattern(p, o, salt)
        return v & 0x7f if mode_dhgr else v
    return f


class Mem:
    """A screen whose page `page` is symbolic (both banks in DHGR), other pages fixed."""

    def __init__(self, h, dhgr, page, name="m", holes_zero=True, cells=None, full8=False, allpages=False):
        self.dhgr = dhgr
        s = h.load("screen")
        mask = 0x7f if dhgr and not full8 else 0xff
        offs = [o for o in range(256) if not (holes_zero and hole(o))] if cells is None else cells
        pages = range(32) if allpages else [page]
        cl = [(p, o) for p in pages for o in offs]
        self.main_a = h.u8_array(name, (32, 256), cl, base_mem(dhgr, 1), mask)
        self.main = s.MemoryMap(1, self.main_a)
        self.aux = self.aux_a = None
        if dhgr:
            self.aux_a = h.u8_array(name + "x", (32, 256), cl, base_mem(dhgr, 2), mask)
            self.aux = s.MemoryMap(1, self.aux_a)
        self.h = h

    def byte(self, p, o, aux=False):
        """Exact value of a memory byte as a Python-style integer."""
        return self.h.at((self.aux if aux else self.main).page_offset, (p, o))

    def bitmap(self, h, pal):
        s = h.load("screen")
        if self.dhgr:
            return s.DHGRBitmap(palette=pal, main_memory=self.main, aux_memory=self.aux)
        return s.HGRBitmap(palette=pal, main_memory=self.main)


def hgr_group(b, p, c):
    """Packed value of group c of page p: b(p, o) gives memory bytes."""
    e, o = b(p, 2 * c), b(p, 2 * c + 1)
    v = (e & 0xff) << 3
    v = v + ((o & 0x7f) << 12) + (((o >> 7) & 1) << 11)
    if c > 0:
        q = b(p, 2 * c - 1)
        v = v + ((q >> 5) & 3) + (((q >> 7) & 1) << 2)
    if c < 127:
        n = b(p, 2 * c + 2)
        v = v + (((n >> 7) & 1) << 19) + ((n & 3) << 20)
    return v


def dhgr_group(bm, bx, p, c):
    v = ((bx(p, 2 * c) & 0x7f) << 3) + ((bm(p, 2 * c) & 0x7f) << 10) + \
        ((bx(p, 2 * c + 1) & 0x7f) << 17) + ((bm(p, 2 * c + 1) & 0x7f) << 24)
    if c > 0:
        v = v + ((bm(p, 2 * c - 1) >> 4) & 7)
    if c < 127:
        v = v + ((bx(p, 2 * c + 2) & 7) << 31)
    return v


def group(mem, p, c):
    if mem.dhgr:
        return dhgr_group(lambda p, o: mem.byte(p, o), lambda p, o: mem.byte(p, o, True), p, c)
    return hgr_group(mem.byte, p, c)


def window(mem, p, o, aux):
    """Window value of byte (p, o): the byte and 3 bits either side, from memory."""
    if mem.dhgr:
        k = (0 if aux else 1) + 2 * (o & 1)
        return (group(mem, p, o // 2) >> (7 * k)) & 0x1fff
    return (group(mem, p, o // 2) >> (8 * (o & 1))) & 0x3fff


def hw_dot(mem, p, row_first, x, k):
    """The dot the hardware shows k dots after the start of byte column x (14 dots per column).

    row_first: page offset of the first byte of the scanline.  0 outside the scanline's bytes.
    """
    while k < 0:
        x, k = x - 1, k + 14
    while k >= 14:
        x, k = x + 1, k - 14
    if not 0 <= x < 40:
        return None
    o = row_first + x
    if mem.dhgr:
        b = mem.byte(p, o, k < 7)
        return (b >> (k if k < 7 else k - 7)) & 1
    b = mem.byte(p, o)
    prev = mem.byte(p, o - 1) if x > 0 else 0
    pal = (b >> 7) & 1
    plain = (b >> (k // 2)) & 1
    late = (prev >> 6) & 1 if k == 0 else (b >> ((k - 1) // 2)) & 1
    return mem.h.ite(mem.h.eq(pal, 1), late, plain)


def modes(tier):
    return [False, True]


def pal_of(h):
    return h.load("palette").Palette.NTSC


# ------------------------------------------------------------------ C01

def c01_rows(h):
    """Scanline base addresses for every scanline and both screens."""
    s = h.load("screen")
    y = h.int("y", 0, 191)
    for page in (0, 1):
        a = h.py(s.y_to_base_addr(y, page))
        hw = 0x2000 * (page + 1) + ((y & 7) << 10) + (((y >> 3) & 7) << 7) + 40 * (y >> 6)
        h.claim("base address of a scanline (screen %d)" % (page + 1), h.eq(a, hw))
        t = h.array(list(s.Y_TO_BASE_ADDR[page]), "int64")
        h.claim("table of scanline base addresses (screen %d)" % (page + 1), h.eq(h.py(t[y]), hw))
    h.cover("last scanline", h.eq(y, 191))


def c01_tables(h, third):
    s = h.load("screen")
    y = h.int("y", 64 * third, 64 * third + 63)
    x = h.int("x", 0, 39)
    hwoff = (((y >> 3) & 1) << 7) + 40 * (y >> 6) + x
    hwpage = ((y & 7) << 2) + (((y >> 3) & 7) >> 1)
    i = y * 40 + x
    h.claim("page of a screen byte", h.eq(h.py(s.X_Y_TO_PAGE.reshape(-1)[i]), hwpage))
    h.claim("offset of a screen byte", h.eq(h.py(s.X_Y_TO_OFFSET.reshape(-1)[i]), hwoff))
    h.claim("the hardware map is injective into visible bytes", h.and_(hwoff >= 0, hwoff < 256, hwpage < 32, (hwoff & 127) < 120))
    j = hwpage * 256 + hwoff
    h.claim("x of the byte's memory location", h.eq(h.py(s.PAGE_OFFSET_TO_X.reshape(-1)[j]), x))
    h.claim("y of the byte's memory location", h.eq(h.py(s.PAGE_OFFSET_TO_Y.reshape(-1)[j]), y))
    h.cover("right edge", h.eq(x, 39))


def c01_holes(h, page0):
    s = h.load("screen")
    p = h.int("p", page0, page0 + 7)
    o = h.int("o", 0, 255)
    hl = s.SCREEN_HOLES.reshape(-1)[p * 256 + o]
    r = o & 127
    is_hole = r >= 120
    h.claim("holes are exactly the bytes 120..127 and 248..255 of a page",
            h.or_(h.and_(hl, is_hole), h.and_(h.not_(hl), h.not_(is_hole))))
    xx = h.py(s.PAGE_OFFSET_TO_X.reshape(-1)[p * 256 + o])
    yy = h.py(s.PAGE_OFFSET_TO_Y.reshape(-1)[p * 256 + o])
    hx = r % 40
    hy = ((p >> 2) & 7) + (((p & 3) * 2 + (o >> 7)) << 3) + 64 * (r // 40)
    h.claim("reverse map of visible bytes", h.implies(h.not_(is_hole), h.and_(h.eq(xx, hx), h.eq(yy, hy))))
    h.cover("hole", is_hole)


def c01_addr(h, lo):
    """Memory address to coordinates, for both screens."""
    s = h.load("screen")
    d = s.ADDR_TO_COORDS
    a = h.int("a", lo, lo + 0x7ff)
    has = h.array([k in d for k in range(lo, lo + 0x800)], "bool")
    vals = [[d[k][n] if k in d else 255 for k in range(lo, lo + 0x800)] for n in range(3)]
    pg, yy, xx = [h.py(h.array(v, "int64")[a - lo]) for v in vals]
    present = has[a - lo]
    r = a & 127
    vis = r < 120
    q = (a >> 8) & 31
    hx = r % 40
    hy = ((q >> 2) & 7) + (((q & 3) * 2 + ((a >> 7) & 1)) << 3) + 64 * (r // 40)
    h.claim("an address has coordinates exactly when it is visible",
            h.or_(h.and_(present, vis), h.and_(h.not_(present), h.not_(vis))))
    h.claim("coordinates of a visible address",
            h.implies(vis, h.and_(h.eq(pg, (a >> 13) - 1), h.eq(yy, hy), h.eq(xx, hx))))
    h.claim("no address outside the two screens has coordinates",
            all(0x2000 <= k < 0x6000 for k in d))
    h.cover("visible", vis)


def c01_configs(tier):
    out = [("screen_s", "c01_rows", {})]
    out += [("screen_s", "c01_tables", {"third": t}) for t in range(3)]
    out += [("screen_s", "c01_holes", {"page0": p}) for p in range(0, 32, 8)]
    out += [("screen_s", "c01_addr", {"lo": a}) for a in range(0x2000, 0x6000, 0x800)]
    return out


# ------------------------------------------------------------------ C02

def c02_convert(h, sp):
    s = h.load("screen")
    data = h.u8_array("d", (8192,))
    ref = h.items(data)
    flat = s.FlatMemoryMap(sp, data)
    mm = flat.to_memory_map()
    h.claim("paged view keeps the screen page", mm.screen_page == sp)
    h.claim("paged view of a flat map", h.all([h.eq(a, b) for a, b in zip(h.items(mm.page_offset), ref)]))
    h.claim("shape of the paged view", h.shape(mm.page_offset) == (32, 256))
    back = mm.to_flat_memory_map()
    h.claim("flat view of the paged view", h.all([h.eq(a, b) for a, b in zip(h.items(back.data), ref)]))
    h.claim("shape of the flat view", h.shape(back.data) == (8192,))
    h.claim("flat view keeps the screen page", back.screen_page == sp)
    e1, e2 = s.FlatMemoryMap(sp), s.MemoryMap(sp)
    h.claim("a new map is all zero", h.and_(h.all([h.eq(x, 0) for x in h.items(e1.data)]),
                                            h.all([h.eq(x, 0) for x in h.items(e2.page_offset)])))
    h.claim("new maps have the right shape", h.shape(e1.data) == (8192,) and h.shape(e2.page_offset) == (32, 256))


def c02_flat_write(h, sp, lo, hi):
    s = h.load("screen")
    data = h.u8_array("d", (8192,))
    ref = h.items(data)
    flat = s.FlatMemoryMap(sp, data)
    addr = h.int("addr", lo, hi)
    val = h.u8("val")
    v = h.py(val)
    base = 0x2000 * sp
    inside = h.and_(addr >= base, addr < base + 8192)
    rejected = h.raises(ValueError, flat.write, addr, val)
    if rejected:
        h.claim("only addresses outside the screen page are rejected", h.not_(inside))
        h.cover("rejected", True)
        new = h.items(flat.data)
        h.claim("a rejected write changes nothing", h.all([h.eq(a, b) for a, b in zip(new, ref)]))
    else:
        h.claim("addresses outside the screen page are rejected", inside)
        new = h.items(flat.data)
        k = addr - base
        h.claim("a flat write changes exactly the addressed byte",
                h.all([h.eq(new[i], h.ite(h.eq(k, i), v, ref[i])) for i in range(8192)]))
        mm = flat.to_memory_map()
        h.claim("the paged view shows the written byte",
                h.all([h.eq(a, b) for a, b in zip(h.items(mm.page_offset), new)]))
        h.cover("written", True)


def c02_paged_write(h, sp, page):
    s = h.load("screen")
    data = h.u8_array("d", (32, 256), [(p, o) for p in (page, (page + 7) % 32) for o in range(256)],
                      lambda i: pattern(*i))
    ref = h.items(data)
    mm = s.MemoryMap(sp, data)
    off = h.int("off", 0, 255)
    val = h.u8("val")
    v = h.py(val)
    mm.write(32 * sp + page, off, val)
    new = h.items(mm.page_offset)
    h.claim("a paged write changes exactly the addressed byte",
            h.all([h.eq(new[i], ref[i] if i // 256 != page else h.ite(h.eq(off, i % 256), v, ref[i]))
                   for i in range(8192)]))
    flat = mm.to_flat_memory_map()
    h.claim("the flat view shows the written byte",
            h.all([h.eq(a, b) for a, b in zip(h.items(flat.data), new)]))
    h.cover("written", True)


def c02_reject(h):
    s = h.load("screen")
    sp = h.int("sp", -2 ** 20, 2 ** 20)
    ok = h.or_(h.eq(sp, 1), h.eq(sp, 2))
    for nm, cls in (("flat", s.FlatMemoryMap), ("paged", s.MemoryMap)):
        r = h.raises(ValueError, cls, sp)
        h.claim("%s map of a screen page other than 1 and 2 is rejected" % nm,
                h.not_(ok) if r else ok)
    for n in (0, 8191, 8193, 256, 32 * 256 + 256):
        h.claim("flat data of %d bytes is rejected" % n,
                h.raises(ValueError, s.FlatMemoryMap, 1, h.np.zeros((n,), dtype=h.np.uint8)))
    h.claim("two-dimensional flat data is rejected",
            h.raises(ValueError, s.FlatMemoryMap, 1, h.np.zeros((32, 256), dtype=h.np.uint8)))
    for sh in ((256, 32), (8192,), (31, 256), (32, 255), (33, 256), (32, 257), (64, 128)):
        h.claim("paged data of shape %r is rejected" % (sh,),
                h.raises(ValueError, s.MemoryMap, 1, h.np.zeros(sh, dtype=h.np.uint8)))
    h.cover("rejected", h.not_(ok))


def c02_configs(tier):
    out = [("screen_s", "c02_convert", {"sp": sp}) for sp in (1, 2)]
    pages = range(32) if tier == "thorough" else (0, 9, 31)
    for sp in (1, 2):
        b = 0x2000 * sp
        for lo, hi in ((-70000, b - 1), (b, b + 1023), (b + 1024, b + 8191), (b + 8192, 70000), (b - 5, b + 5),
                       (b + 8180, b + 8200)):
            out.append(("screen_s", "c02_flat_write", {"sp": sp, "lo": lo, "hi": hi}))
        out += [("screen_s", "c02_paged_write", {"sp": sp, "page": p}) for p in pages]
    out.append(("screen_s", "c02_reject", {}))
    return out


# ------------------------------------------------------------------ C03

def c03(h, dhgr, page):
    mem = Mem(h, dhgr, page, holes_zero=False, full8=True)
    before = [h.copy(mem.main_a)] + ([h.copy(mem.aux_a)] if dhgr else [])
    bm = mem.bitmap(h, pal_of(h))
    h.claim("shape of the packed form", h.shape(bm.packed) == (32, 128))
    h.claim("element type of the packed form", h.dtype(bm.packed) == "uint64")
    h.claim("packed groups of the page", h.all(
        [h.eq(h.at(bm.packed, (page, c)), group(mem, page, c)) for c in range(128)]))
    h.claim("packed groups of other pages", h.all(
        [h.eq(h.at(bm.packed, (p, c)), group(mem, p, c)) for p in range(32) if p != page
         for c in range(0, 128)]))
    h.claim("packing leaves memory alone", h.and_(
        h.arr_eq(before[0], mem.main.page_offset),
        h.arr_eq(before[1], mem.aux.page_offset) if dhgr else True))
    h.cover("palette bit set", h.eq((mem.byte(page, 5) >> 7) & 1, 1))


def c03_configs(tier):
    pages = range(32) if tier == "thorough" else (0, 1, 17, 31)
    return [("screen_s", "c03", {"dhgr": d, "page": p}) for d in (False, True) for p in pages]


# ------------------------------------------------------------------ C04

def c04(h, dhgr, aux, page, offs, whole=False):
    """One store of any byte at each of several offsets of a page, from any content."""
    s = h.load("screen")
    for off in range(*offs):
        mem = Mem(h, dhgr, page, name="m", holes_zero=False, full8=True,
                  cells=None if whole else [o for o in range(256) if off - 6 <= o <= off + 6])
        bm = mem.bitmap(h, pal_of(h))
        om, ox = h.copy(mem.main_a), h.copy(mem.aux_a) if dhgr else None
        v = h.u8("v")
        bm.apply(page, off, aux, v)
        want_m, want_x = om, ox
        h.put(want_x if aux else want_m, (page, off), v)
        h.claim("memory after the store at %d" % off, h.and_(
            h.arr_eq(mem.main.page_offset, want_m),
            h.arr_eq(mem.aux.page_offset, want_x) if dhgr else True))
        mem2 = Mem.__new__(Mem)
        mem2.dhgr, mem2.h = dhgr, h
        mem2.main = s.MemoryMap(1, want_m)
        mem2.aux = s.MemoryMap(1, want_x) if dhgr else None
        fresh = mem2.bitmap(h, pal_of(h))
        h.claim("packed form after the store at %d equals repacking" % off,
                h.arr_eq(bm.packed, fresh.packed))
        h.claim("packed form after the store at %d: the three groups around it" % off, h.all(
            [h.eq(h.at(bm.packed, (page, c)), group(mem2, page, c))
             for c in range(max(0, off // 2 - 1), min(128, off // 2 + 2))]))
        h.cover("store changes the byte", h.not_(h.eq(h.py(v), h.at(om if not aux else mem.aux_a, (page, off)))) if not h.symbolic else True)


def c04_configs(tier):
    out = []
    if tier == "thorough":
        for d, a in ((False, False), (True, False), (True, True)):
            for p in range(32):
                for o in range(0, 256, 64):
                    out.append(("screen_s", "c04", {"dhgr": d, "aux": a, "page": p, "offs": [o, o + 64]}))
            for o in range(0, 256, 16):
                out.append(("screen_s", "c04", {"dhgr": d, "aux": a, "page": 11, "offs": [o, o + 16], "whole": True}))
    else:
        for d, a in ((False, False), (True, False), (True, True)):
            for p in (0, 21, 31):
                for o in range(0, 256, 64):
                    out.append(("screen_s", "c04", {"dhgr": d, "aux": a, "page": p, "offs": [o, o + 64]}))
    return out


# ------------------------------------------------------------------ C05, C06, C07

def positions(xs=None):
    """(offset, first offset of its scanline, x) of the visible bytes of a page."""
    for o in range(256):
        if not hole(o):
            r, x = row_x(o)
            if xs is None or x in xs:
                yield o, o - x, x


def known_dots(first, x, dhgr, aux):
    """Dot indices of the window that the packed form can know.

    The packed form takes the byte left of a scanline's first byte from the previous scanline of
    the same page (a documented simplification), so there only the dots that do not
    depend on that neighbour are claimed, except at the page's halves where the neighbour is
    empty.  Past the right edge no dots are displayed.
    """
    n = 13 if dhgr else 21
    w = 7 if dhgr else 14
    lo, hi = 0, n
    col0 = x == 0 and (not dhgr or aux)
    if col0 and first % 128 != 0:
        lo = 3 if dhgr else 4
    if x == 39 and not (dhgr and aux):
        hi = 3 + w
    return lo, hi


def c05(h, dhgr, aux, page, part):
    mem = Mem(h, dhgr, page)
    bm = mem.bitmap(h, pal_of(h))
    for o, first, x in positions():
        if o % 4 != part:
            continue
        bo = bm.byte_offset(o, aux)
        win = bm.mask_and_shift_data(bm.packed[page, o // 2], bo)
        h.claim("window value of offset %d" % o, h.eq(h.py(win), window(mem, page, o, aux)))
        dots = h.py(bm.to_dots(h.py(win), bo))
        lo, hi = known_dots(first, x, dhgr, aux)
        base = 7 if dhgr and not aux else 0
        for k in range(lo, hi):
            d = hw_dot(mem, page, first, x, base + k - 3)
            if d is None:
                d = 0  # left of the screen
            h.claim("dot %d of the window of offset %d" % (k, o), h.eq((dots >> k) & 1, d))
        h.claim("no dots beyond the window of offset %d" % o, h.eq(dots >> (13 if dhgr else 21), 0))
    h.cover("palette bits differ", True if dhgr else h.not_(h.eq(mem.byte(page, 5) >> 7, mem.byte(page, 6) >> 7)))


def c05_any(h, dhgr, bo):
    """to_dots of every window value at once (single window, no screen)."""
    s = h.load("screen")
    cls = s.DHGRBitmap if dhgr else s.HGRBitmap
    n = 13 if dhgr else 14
    w = h.int("w", 0, 2 ** n - 1)
    dots = h.py(cls.to_dots(w, bo))
    if dhgr:
        h.claim("dots of a DHGR window", h.eq(dots, w))
        return
    hd, hp = w & 3, (w >> 2) & 1
    if bo == 0:
        b, bp = (w >> 3) & 0x7f, (w >> 10) & 1
    else:
        b, bp = (w >> 4) & 0x7f, (w >> 3) & 1
    f, fp = (w >> 12) & 3, (w >> 11) & 1
    want = []
    for k in range(21):
        if k < 3:
            # columns 11, 12, 13 of the previous byte
            d = h.ite(h.eq(hp, 1), (hd >> (0 if k < 2 else 1)) & 1, (hd >> (0 if k < 1 else 1)) & 1)
        elif k < 17:
            j = k - 3
            late = (hd >> 1) & 1 if j == 0 else (b >> ((j - 1) // 2)) & 1
            d = h.ite(h.eq(bp, 1), late, (b >> (j // 2)) & 1)
        else:
            j = k - 17
            late = (b >> 6) & 1 if j == 0 else (f >> ((j - 1) // 2)) & 1
            d = h.ite(h.eq(fp, 1), late, (f >> (j // 2)) & 1)
        want.append(d)
    for k in range(21):
        h.claim("dot %d of an HGR window" % k, h.eq((dots >> k) & 1, want[k]))
    h.claim("no further dots", h.eq(dots >> 21, 0))


def c05_configs(tier):
    pages = range(32) if tier == "thorough" else (0, 19)
    out = [("screen_s", "c05", {"dhgr": d, "aux": a, "page": p, "part": k})
           for d, a in ((False, False), (True, False), (True, True)) for p in pages for k in range(4)]
    out += [("screen_s", "c05_any", {"dhgr": False, "bo": b}) for b in range(2)]
    out += [("screen_s", "c05_any", {"dhgr": True, "bo": b}) for b in range(4)]
    return out


def rol4(h, v, n):
    n %= 4
    return ((v << n) | (v >> (4 - n))) & 15


def c06(h, dhgr, aux, page, part):
    """Colours from the window of a byte against the scanline's dots at their absolute phase."""
    cm = h.load("colours")
    mem = Mem(h, dhgr, page)
    bm = mem.bitmap(h, pal_of(h))
    enum = cm.DHGRColours if dhgr else cm.HGRColours
    nd = h.py(bm.MASKED_DOTS)
    h.claim("every colour of the window has its four dots", nd + 3 == (13 if dhgr else 21))
    for o, first, x in positions():
        if o % 6 != part:
            continue
        bo = bm.byte_offset(o, aux)
        win = bm.mask_and_shift_data(bm.packed[page, o // 2], bo)
        dots = bm.to_dots(h.py(win), bo)
        px = cm.dots_to_nominal_colour_pixel_values(nd, dots, enum, init_phase=bm.PHASES[bo])
        h.claim("number of colours at offset %d" % o, len(px) == nd)
        lo, hi = known_dots(first, x, dhgr, aux)
        base = 7 if dhgr and not aux else 0
        for i in range(nd):
            if i < lo or i + 3 >= hi:
                continue
            nib = 0
            for k in range(4):
                d = hw_dot(mem, page, first, x, base + i + k - 3)
                nib = nib + ((0 if d is None else d) << k)
            n = 14 * x + base + i - 3
            h.claim("colour %d at offset %d" % (i, o), h.eq(h.py(px[i]), rol4(h, nib, n % 4)))
    h.cover("reached")


def c06_any(h, dhgr, bo, ndots):
    """Colour sequence of any dot string of a given length at a byte position's phase."""
    cm = h.load("colours")
    s = h.load("screen")
    cls = s.DHGRBitmap if dhgr else s.HGRBitmap
    enum = cm.DHGRColours if dhgr else cm.HGRColours
    dots = h.int("dots", 0, 2 ** (ndots + 3) - 1)
    px = cm.dots_to_nominal_colour_pixels(ndots, dots, enum, cls.PHASES[bo])
    h.claim("number of colours", len(px) == ndots)
    # absolute position of the first dot of the window
    start = (14 * bo - 3) if not dhgr else (7 * bo - 3)
    for i in range(ndots):
        h.claim("colour %d" % i, h.eq(h.py(px[i].value), rol4(h, (dots >> i) & 15, (start + i) % 4)))


def c06_configs(tier):
    pages = range(32) if tier == "thorough" else (7,)
    out = [("screen_s", "c06", {"dhgr": d, "aux": a, "page": p, "part": k})
           for d, a in ((False, False), (True, False), (True, True)) for p in pages for k in range(6)]
    out += [("screen_s", "c06_any", {"dhgr": False, "bo": b, "ndots": n}) for b in range(2) for n in (18, 5, 37)]
    out += [("screen_s", "c06_any", {"dhgr": True, "bo": b, "ndots": n}) for b in range(4) for n in (10, 4, 28)]
    return out


def c07(h, dhgr, aux, page, part):
    """Effects of replacing one byte, over the whole scanline."""
    cm = h.load("colours")
    enum = cm.DHGRColours if dhgr else cm.HGRColours
    mem = Mem(h, dhgr, page)
    pal = pal_of(h)
    bm = mem.bitmap(h, pal)
    nd = h.py(bm.MASKED_DOTS)
    v = h.int("v", 0, 127 if dhgr else 255)
    for o, first, x in positions():
        if o % 8 != part:
            continue
        # the same screen with one byte replaced
        mem2 = Mem.__new__(Mem)
        mem2.dhgr, mem2.h = dhgr, h
        old = mem.byte(page, o, aux)
        mem2.byte = lambda p, q, a=False, o=o: v if (p, q, bool(a)) == (page, o, aux) else mem.byte(p, q, a)
        a = [hw_dot(mem, page, first, 0, k) for k in range(560)]
        b = [hw_dot(mem2, page, first, 0, k) for k in range(560)]
        base = 14 * x + (7 if dhgr and not aux else 0)
        w = 7 if dhgr else 14
        n = 13 if dhgr else 21
        # dots outside the window's own dots (3 before, the byte, 3 or 4 after) never change
        out = [k for k in range(560) if not base - 3 <= k < base - 3 + n]
        h.claim("dots outside the window of offset %d" % o, h.all([h.eq(a[k], b[k]) for k in out]))
        # colours (4 dots each) outside those evaluated never change
        def nib(d, k):
            r = 0
            for j in range(4):
                r = r + ((d[k + j] if k + j < 560 else 0) << j)
            return r
        outc = [k for k in range(560) if not base - 3 <= k < base - 3 + nd]
        near = [k for k in outc if base - 12 <= k < base + w + 12]
        h.claim("colours outside the window of offset %d" % o,
                h.all([h.eq(nib(a, k), nib(b, k)) for k in near]))
        # a visible change shows in the window's value and in the colours of the window
        lo, hi = known_dots(first, x, dhgr, aux)
        changed = h.not_(h.all([h.eq(a[k], b[k]) for k in range(max(0, base - 3 + lo), min(560, base - 3 + hi))]))
        bo = bm.byte_offset(o, aux)
        pk = bm.packed[page, o // 2]
        nv = h.np.uint8(v)
        pk2 = bm.masked_update(bo, pk, nv)
        w1, w2 = h.py(bm.mask_and_shift_data(pk, bo)), h.py(bm.mask_and_shift_data(pk2, bo))
        h.claim("a visible change at offset %d changes the window" % o, h.implies(changed, h.not_(h.eq(w1, w2))))
        c1 = cm.dots_to_nominal_colour_pixel_values(nd, bm.to_dots(w1, bo), enum, init_phase=bm.PHASES[bo])
        c2 = cm.dots_to_nominal_colour_pixel_values(nd, bm.to_dots(w2, bo), enum, init_phase=bm.PHASES[bo])
        same = h.all([h.eq(h.py(p), h.py(q)) for p, q in zip(c1, c2)])
        if lo == 0 and hi == n:
            h.claim("a visible change at offset %d changes the window's colours, and only it" % o,
                    h.and_(h.implies(changed, h.not_(same)), h.implies(h.not_(changed), same)))
        else:
            h.claim("a visible change at offset %d changes the window's colours" % o,
                    h.implies(changed, h.not_(same)))
        h.cover("visible change", changed)


def c07_configs(tier):
    pages = range(32) if tier == "thorough" else (12,)
    return [("screen_s", "c07", {"dhgr": d, "aux": a, "page": p, "part": k})
            for d, a in ((False, False), (True, False), (True, True)) for p in pages for k in range(8)]


# ------------------------------------------------------------------ C08

def with_table(h, dhgr, sep=False, hi=None):
    s = h.load("screen")
    tab = h.table("D", 4 if dhgr else 2, 13 if dhgr else 14, sep=sep, hi=hi)
    h.patch(s.Bitmap, "edit_distances", classmethod(lambda cls, *a, **k: tab))
    return tab


def c08(h, dhgr, aux, page, part, what):
    s = h.load("screen")
    tab = with_table(h, dhgr)
    offs = [o for o in range(256) if o % 8 == part or o in (0, 255)]
    src = Mem(h, dhgr, page, name="s", full8=False)
    tgt = Mem(h, dhgr, page, name="t", full8=False)
    pal = pal_of(h)
    bs, bt = src.bitmap(h, pal), tgt.bitmap(h, pal)

    def pair(a, b, o):
        bo = bt.byte_offset(o, aux)
        n = 13 if dhgr else 14
        return h.py(tab[bo][a * 2 ** n + b])
    if what == "weights":
        dw = bt.diff_weights(bs, aux)
        h.claim("shape of the weights", h.shape(dw) == (32, 256))
        for o in offs:
            h.claim("weight of offset %d" % o, h.eq(
                h.at(dw, (page, o)), pair(window(src, page, o, aux), window(tgt, page, o, aux), o)))
        q = (page + 5) % 32
        h.claim("weights of another page", h.all(
            [h.eq(h.at(dw, (q, o)), pair(window(src, q, o, aux), window(tgt, q, o, aux), o))
             for o in range(256)]))
    elif what == "delta":
        v = h.num("v", "uint8", 0, 127 if dhgr else 255)
        dwr = h.i32_array("w", (256,), [(o,) for o in range(256)], hi=70000)
        keep = h.copy(dwr)
        packed0 = h.copy(bt.packed)
        d = bt.compute_delta_page(page, v, dwr, aux)
        h.claim("shape of the gains", h.shape(d) == (256,))
        for o in offs:
            t2 = Mem.__new__(Mem)
            t2.dhgr, t2.h = dhgr, h
            t2.byte = lambda p, q, a=False, o=o: h.py(v) if (p, q, bool(a)) == (page, o, aux) else tgt.byte(p, q, a)
            want = pair(window(t2, page, o, aux), window(tgt, page, o, aux), o) - h.at(keep, (o,))
            h.claim("gain of storing at offset %d" % o, h.eq(h.at(d, (o,)), want))
        h.claim("evaluating gains changes neither weights nor screens",
                h.and_(h.arr_eq(dwr, keep), h.arr_eq(bt.packed, packed0)))
    else:
        v = h.num("v", "uint8", 0, 127 if dhgr else 255)
        for o in offs:
            bo = bt.byte_offset(o, aux)
            r = bt.byte_pair_difference(bo, bt.packed[page, o // 2], v)
            t2 = Mem.__new__(Mem)
            t2.dhgr, t2.h = dhgr, h
            t2.byte = lambda p, q, a=False, o=o: h.py(v) if (p, q, bool(a)) == (page, o, aux) else tgt.byte(p, q, a)
            h.claim("pair distance of storing at offset %d" % o, h.eq(
                h.py(r), pair(window(tgt, page, o, aux), window(t2, page, o, aux), o)))
    h.cover("reached")


def c08_palettes(h, dhgr, aux, page, order):
    """Two palettes, and so two tables, in one process."""
    s = h.load("screen")
    pm = h.load("palette").Palette
    names = ["NTSC", "IIGS"]
    tabs = {n: h.table("D" + n, 4 if dhgr else 2, 13 if dhgr else 14) for n in names}

    def table(cls, palette_id=None, *a, **k):
        return tabs[palette_id.name]
    h.patch(s.Bitmap, "edit_distances", classmethod(table))
    src, tgt = Mem(h, dhgr, page, name="s"), Mem(h, dhgr, page, name="t")
    v = h.num("v", "uint8", 0, 127 if dhgr else 255)
    zero = h.i32_array("w", (256,), [])
    n = 13 if dhgr else 14
    bitmaps = {}
    for name in order:
        if name not in bitmaps:
            bitmaps[name] = src.bitmap(h, pm[name]), tgt.bitmap(h, pm[name])
    for name in order:
        bs, bt = bitmaps[name]
        tab = tabs[name]
        dw = bt.diff_weights(bs, aux)
        d = bt.compute_delta_page(page, v, h.copy(zero), aux)
        for o in (0, 1, 40, 127, 130, 255):
            bo = bt.byte_offset(o, aux)
            t2 = Mem.__new__(Mem)
            t2.dhgr, t2.h = dhgr, h
            t2.byte = lambda p, q, a=False, o=o: h.py(v) if (p, q, bool(a)) == (page, o, aux) else tgt.byte(p, q, a)
            x, y, z = (window(m, page, o, aux) for m in (src, tgt, t2))
            h.claim("%s: weight of offset %d" % (name, o), h.eq(h.at(dw, (page, o)), h.py(tab[bo][x * 2 ** n + y])))
            h.claim("%s: gain of storing at offset %d" % (name, o), h.eq(h.at(d, (o,)), h.py(tab[bo][z * 2 ** n + y])))
            r = bt.byte_pair_difference(bo, bt.packed[page, o // 2], v)
            h.claim("%s: pair distance of storing at offset %d" % (name, o), h.eq(h.py(r), h.py(tab[bo][y * 2 ** n + z])))
    h.cover("reached")


def c08_configs(tier):
    return c08_one(tier) + [("screen_s", "c08_palettes", {"dhgr": d, "aux": a, "page": 6, "order": o})
                            for d, a in ((False, False), (True, False), (True, True))
                            for o in (["NTSC", "IIGS", "NTSC"], ["IIGS", "NTSC"])]


def c08_one(tier):
    pages = (0, 3, 16, 31) if tier == "thorough" else (3,)
    parts = range(8) if tier == "thorough" else (0, 3, 6)
    return [("screen_s", "c08", {"dhgr": d, "aux": a, "page": p, "part": k, "what": w})
            for d, a in ((False, False), (True, False), (True, True)) for p in pages for k in parts
            for w in ("weights", "delta", "pair")]


# ------------------------------------------------------------------ C09

class Npz(dict):
    files = property(lambda self: list(self))
    f = property(lambda self: self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def c09(h, loads, bits):
    """Loading of the triangular tables, for a representation scaled down to few bits.

    loads: modes and palettes whose tables one process asks for, in order.
    """
    import os
    s = h.load("screen")
    pal = h.load("palette")
    n = 1 << bits
    loads = [tuple(m) for m in loads]
    data, ref = {}, {}
    for dhgr, palname in dict.fromkeys(loads):
        rows = 4 if dhgr else 2
        a = h.np.zeros((rows, n * n), dtype=h.np.uint16)
        r = {}
        for o in range(rows):
            for x in range(n):
                for y in range(x):
                    p = (x << bits) + y
                    v = h.num("e[%s %s %d, %d]" % (dhgr, palname, o, p), "uint16")
                    r[o, p] = h.py(v)
                    h.put(a, (o, p), v)
        ref[dhgr, palname] = r
        data[os.path.normpath("transcoder/data/%s_palette_%d_edit_distance.npz" % (
            "DHGR" if dhgr else "HGR", {"NTSC": 5, "IIGS": 0}[palname]))] = a
    opened = []

    def load(path, *a, **k):
        path = os.path.normpath(str(path))
        opened.append(path)
        if path not in data:
            return Npz({"edit_distance": h.np.zeros((9, n * n), dtype=h.np.uint16)})
        return Npz({"edit_distance": h.copy(data[path])})
    h.patch(s.np, "load", load)
    for c in (s.HGRBitmap, s.DHGRBitmap):
        h.patch(c, "MASKED_BITS", h.np.uint64(bits))
    for dhgr, palname in loads:
        rows = 4 if dhgr else 2
        r = ref[dhgr, palname]
        d = (s.DHGRBitmap if dhgr else s.HGRBitmap).edit_distances(pal.Palette[palname])
        h.claim("shape of the loaded table", h.shape(d) == (rows, n * n))
        if h.shape(d) != (rows, n * n):
            continue
        h.claim("loaded entries of %s %s" % ("DHGR" if dhgr else "HGR", palname), h.all(
            [h.eq(h.at(d, (o, (a << bits) + b)), 0 if a == b else r[o, (max(a, b) << bits) + min(a, b)])
             for o in range(rows) for a in range(n) for b in range(n)]))
    h.claim("the files of these modes and palettes are read", set(opened) == set(data))
    h.cover("reached")


def c09_written(h):
    """The generator writes the table under the name the loader reads."""
    import os
    saved = []
    stubs = gen_stubs()
    h.world(stubs=stubs)
    g = h.load("make_data_tables")
    s = h.load("screen")
    pal = h.load("palette")
    h.patch(g.np, "savez_compressed", lambda path, **k: saved.append((str(path), k)))
    marks = {}

    def fake(edp=None, bitmap_cls=None, nominal_colours=None):
        marks.setdefault((bitmap_cls.__name__, edp), object())
        return marks[bitmap_cls.__name__, edp]
    h.patch(g, "compute_edit_distance", fake)
    h.patch(g, "compute_substitute_costs", lambda p, *a, **k: p)
    h.patch(g.os, "mkdir", lambda *a, **k: None)
    g.main()
    want = {}
    for p in pal.PALETTES.values():
        for nm in ("HGR", "DHGR"):
            want["transcoder/data/%s_palette_%d_edit_distance.npz" % (nm, p.ID.value)] = 1
    h.claim("one table per mode and palette is written under the loader's names",
            sorted(os.path.normpath(x) for x, _ in saved) == sorted(want))
    h.claim("each file holds one array under the name the loader reads",
            all(list(k) == ["edit_distance"] for _, k in saved))
    right = {}
    for x, k in saved:
        base = os.path.basename(x)
        for (cn, p), v in marks.items():
            for q in pal.PALETTES.values():
                if v is list(k.values())[0] and base == "%s_palette_%d_edit_distance.npz" % (
                        cn[:-6], q.ID.value) and (p is q or p == q or p is q.__class__):
                    right[base] = True
    h.claim("each file holds the table of that mode and palette", len(right) == len(want))
    h.cover("reached")


def gen_stubs():
    class Bar:
        def __init__(self, *a, **k):
            self.numerator = 0

        def __str__(self):
            return ""

    def mod(name, **attrs):
        import types
        m = types.ModuleType(name)
        for k, v in attrs.items():
            setattr(m, k, v)
        return m
    progress = mod("etaprogress.progress", ProgressBar=Bar)
    cc = mod("colormath.color_conversions", convert_color=lambda c, t: ("lab", c))
    cd = mod("colormath.color_diff", delta_e_cie2000=lambda a, b: 0.0)
    co = mod("colormath.color_objects", LabColor="LabColor", sRGBColor=lambda *a, **k: ("rgb",) + a)
    return {
        "etaprogress": {"progress": progress}, "etaprogress.progress": progress,
        "colormath": {"color_conversions": cc, "color_diff": cd, "color_objects": co},
        "colormath.color_conversions": cc, "colormath.color_diff": cd, "colormath.color_objects": co,
        "weighted_levenshtein": {"dam_lev": lambda *a, **k: 0.0},
    }


def c09_configs(tier):
    ms = [(d, p) for d in (False, True) for p in ("NTSC", "IIGS")]
    bits = (1, 2, 3, 4) if tier == "thorough" else (1, 3)
    out = [("screen_s", "c09", {"loads": [m], "bits": b}) for m in ms for b in bits]
    # one table after another in one process, and the first once more
    out += [("screen_s", "c09", {"loads": [a, b, a], "bits": k}) for a in ms for b in ms if a != b
            for k in ((1, 2) if tier == "thorough" else (1,))]
    out.append(("screen_s", "c09", {"loads": ms + ms, "bits": 2}))
    out.append(("screen_s", "c09_written", {}))
    return out

"""Scenarios for the colour model and the distance table generator (C10, C11, C12)."""
from .screen_s import gen_stubs

NAMES = ["BLACK", "MAGENTA", "BROWN", "ORANGE", "DARK_GREEN", "GREY1", "GREEN", "YELLOW", "DARK_BLUE", "VIOLET",
         "GREY2", "PINK", "MED_BLUE", "LIGHT_BLUE", "AQUA", "WHITE"]


def rotl(h, v, n):
    """4-bit v rotated left by the constant n."""
    n %= 4
    return ((v << n) | (v >> (4 - n))) & 15


# ------------------------------------------------------------------ C12

def c12_rot(h, most):
    cm = h.load("colours")
    v = h.int("v", 0, 15)
    for n in range(most + 1):
        l, r = h.py(cm.rol(v, n)), h.py(cm.ror(v, n))
        h.claim("rotating left by %d" % n, h.eq(l, rotl(h, v, n)))
        h.claim("rotating right by %d" % n, h.eq(r, rotl(h, v, -n)))
        h.claim("right undoes left (%d)" % n, h.eq(h.py(cm.ror(l, n)), v))
        h.claim("left undoes right (%d)" % n, h.eq(h.py(cm.rol(r, n)), v))
    h.claim("four rotations are the identity", h.and_(h.eq(h.py(cm.rol(v, 4)), v), h.eq(h.py(cm.ror(v, 4)), v)))
    h.cover("reached")


def c12_enums(h):
    cm = h.load("colours")
    hg = {m.name: m.value for m in cm.HGRColours}
    dg = {m.name: m.value for m in cm.DHGRColours}
    h.claim("the same sixteen names", sorted(hg) == sorted(dg) == sorted(NAMES))
    for d in (hg, dg):
        h.claim("each value once", sorted(h.concrete(x) for x in d.values()) == list(range(16)))
    v = h.int("v", 0, 15)
    # the name of value v in DHGR has HGR value v rotated by one dot
    for n in NAMES:
        h.claim("%s is rotated by one dot" % n,
                h.implies(h.eq(v, dg[n]), h.eq(hg[n], rotl(h, v, 1))))
        h.claim("%s has the library's rotation" % n,
                h.implies(h.eq(v, dg[n]), h.eq(hg[n], h.py(cm.rol(v, 1)))))


def c12_split(h, dhgr, n, ph):
    cm = h.load("colours")
    enum = cm.DHGRColours if dhgr else cm.HGRColours
    dots = h.int("dots", 0, 2 ** (n + 3) - 1)
    whole = cm.dots_to_nominal_colour_pixels(n, dots, enum, ph)
    vals = cm.dots_to_nominal_colour_pixel_values(n, dots, enum, ph)
    h.claim("number of colours", len(whole) == n and len(vals) == n)
    for i in range(n):
        h.claim("value of colour %d" % i, h.and_(h.eq(h.py(whole[i].value), h.py(vals[i])),
                                                 h.eq(h.py(vals[i]), rotl(h, (dots >> i) & 15, ph + i))))
    for k in range(1, n):
        a = cm.dots_to_nominal_colour_pixels(k, dots & (2 ** (k + 3) - 1), enum, ph)
        b = cm.dots_to_nominal_colour_pixels(n - k, dots >> k, enum, (ph + k) % 4)
        h.claim("split at %d: lengths" % k, len(a) == k and len(b) == n - k)
        h.claim("split at %d" % k, h.all([h.eq(h.py(p.value), h.py(q.value))
                                          for p, q in zip(list(a) + list(b), whole)]))
    h.claim("default phase is 1", h.all([
        h.eq(h.py(p), h.py(q)) for p, q in zip(cm.dots_to_nominal_colour_pixel_values(n, dots, enum),
                                               cm.dots_to_nominal_colour_pixel_values(n, dots, enum, 1))]))
    h.cover("reached")


def c12_configs(tier):
    ns = (1, 2, 7, 13, 24) if tier != "thorough" else (1, 2, 3, 4, 5, 7, 10, 13, 18, 24, 37)
    return ([("colours_s", "c12_rot", {"most": 8 if tier != "thorough" else 32}), ("colours_s", "c12_enums", {})] +
            [("colours_s", "c12_split", {"dhgr": d, "n": n, "ph": p}) for d in (False, True) for n in ns for p in range(4)])


# ------------------------------------------------------------------ C10

def codes(h, s, n):
    """Character codes of a (possibly symbolic) string."""
    return [s[i] for i in range(n)]


def same_text(h, a, b):
    if a is None or len(a) != len(b):
        return False
    if a is b:
        return True
    return h.all([h.eq(p, q) for p, q in zip(a, b)])


def text_of(h, s):
    """The character codes of a string."""
    if isinstance(s, str):
        return [ord(c) for c in s]
    return list(s.codes)


def c10(h, dhgr, bits, dots_free, nd):
    """Every entry of the generated table at a reduced window width.

    dots_free: which window values have arbitrary dots (others fixed and different)."""
    calls = []

    def dam_lev(a, b, insert_costs=None, delete_costs=None, substitute_costs=None, transpose_costs=None):
        d = h.int("D%d" % len(calls), 0, 65535)
        calls.append((text_of(h, a), text_of(h, b), d))
        return d
    stubs = gen_stubs()
    stubs["weighted_levenshtein"] = {"dam_lev": dam_lev, "osa": dam_lev, "lev": dam_lev}
    h.world(stubs=stubs)
    g = h.load("make_data_tables")
    s = h.load("screen")
    cm = h.load("colours")
    real = s.DHGRBitmap if dhgr else s.HGRBitmap
    enum = cm.DHGRColours if dhgr else cm.HGRColours
    rows = len(real.BYTE_MASKS)
    dots = {}
    N = 2 ** bits
    width = nd + 3
    for o in range(rows):
        for i in range(N):
            dots[o, i] = h.int("dots_%d_%d" % (o, i), 0, 2 ** width - 1) if dots_free is None or i in dots_free else \
                (i * 37 + o * 11 + i * i * 5 + 3) % 2 ** width

    def to_dots(cls, masked_val, byte_offset):
        m = h.concrete(h.py(masked_val))
        o = h.concrete(h.py(byte_offset))
        assert m is not None and o is not None
        return dots[o, m]
    small = type("Small", (real,), {"MASKED_BITS": h.np.uint64(bits) if not isinstance(real.MASKED_BITS, int) else bits,
                                    "MASKED_DOTS": nd if isinstance(real.MASKED_DOTS, int) else h.np.uint64(nd), "to_dots": classmethod(to_dots)})
    t = g.compute_edit_distance(g.EditDistanceParams(), small, enum)
    h.claim("shape of the table", h.shape(t) == (rows, N * N))
    h.claim("dtype of the table", h.dtype(t) == "uint16")
    if h.shape(t) != (rows, N * N):
        return
    chars = "0123456789ABCDEF"

    def expect(o, i):
        ph = [h.concrete(h.py(x)) for x in real.PHASES][o]
        out = []
        for k in range(nd):
            v = rotl(h, (dots[o, i] >> k) & 15, ph + k)
            v = h.py(v)
            c = h.concrete(v)
            # "0".."9" then "A".."F"
            out.append(ord(chars[c]) if c is not None else h.py(h.ite(v < 10, v + 48, v + 55)))
        return out
    want = {(o, i): expect(o, i) for o in range(rows) for i in range(N)}
    index = {}
    for k, (a, b, d) in enumerate(calls):
        for x in ((a, b), (b, a)):
            key = tuple(h.concrete(c) for c in x[0] + x[1])
            if None not in key:
                index.setdefault(key, []).append(k)
    hint = 0
    for o in range(rows):
        for i in range(N):
            for j in range(N):
                e = h.at(t, (o, i * N + j))
                if j >= i:
                    h.claim("entry %d,%d,%d is zero" % (o, i, j), h.eq(e, 0))
                    continue
                a, b = want[o, i], want[o, j]
                key = tuple(h.concrete(c) for c in a + b)
                if None not in key:
                    ks = index.get(key, [])
                else:
                    ks = range(len(calls)) if len(calls) <= 200 else []
                alts = []
                for k in ks:
                    ok = h.or_(h.and_(same_text(h, calls[k][0], a), same_text(h, calls[k][1], b)),
                               h.and_(same_text(h, calls[k][0], b), same_text(h, calls[k][1], a)))
                    alts.append(h.and_(h.eq(e, calls[k][2]), ok))
                alts.append(h.and_(h.eq(e, 0), same_text(h, a, b)))
                h.claim("entry %d,%d,%d is the distance of its pair" % (o, i, j), h.any(alts))
    h.cover("reached")


def c10_configs(tier):
    out = []
    for d in (False, True):
        out.append(("colours_s", "c10", {"dhgr": d, "bits": 1, "dots_free": None, "nd": 10 if d else 18}))
        out.append(("colours_s", "c10", {"dhgr": d, "bits": 2, "dots_free": None, "nd": 4}))
        out.append(("colours_s", "c10", {"dhgr": d, "bits": 3, "dots_free": [5], "nd": 8}))
        out.append(("colours_s", "c10", {"dhgr": d, "bits": 5, "dots_free": [], "nd": 10}))
        if tier == "thorough":
            out.append(("colours_s", "c10", {"dhgr": d, "bits": 3, "dots_free": None, "nd": 4}))
            out.append(("colours_s", "c10", {"dhgr": d, "bits": 4, "dots_free": [15], "nd": 10 if d else 18}))
            out.append(("colours_s", "c10", {"dhgr": d, "bits": 7, "dots_free": [], "nd": 10}))
    return out


# ------------------------------------------------------------------ C11

def c11(h):
    """The whole generator on two window values per mode; the costs that reach the edit distance."""
    stubs = gen_stubs()
    delta = {}
    seen = {"now": [], "tables": []}
    top = 4000

    def convert(c, target, *a, **k):
        return ("lab", c, target)

    def cie(a, b, *r, **k):
        assert a[0] == "lab" and b[0] == "lab"
        p, q = sorted((a[1], b[1]))
        if p == q:
            return 0
        key = "E_%s_%s" % ("_".join(map(str, p[1:4])), "_".join(map(str, q[1:4])))
        if key not in delta:
            delta[key] = h.int(key, 0, top)
        return delta[key]

    def dam_lev(a, b, insert_costs=None, delete_costs=None, substitute_costs=None, transpose_costs=None):
        # the arrays are shared between palettes and modes: keep their contents at this moment
        seen["now"].append([None if c is None else h.copy(c) for c in (insert_costs, delete_costs, substitute_costs)])
        return 1.0

    def rgb(r, g, b, is_upscaled=False, **k):
        return ("rgb", r, g, b, is_upscaled)
    stubs["colormath.color_conversions"].convert_color = convert
    stubs["colormath.color_diff"].delta_e_cie2000 = cie
    stubs["colormath.color_objects"].sRGBColor = rgb
    stubs["weighted_levenshtein"] = {"dam_lev": dam_lev}
    h.world(stubs=stubs)
    g = h.load("make_data_tables")
    s = h.load("screen")
    cm = h.load("colours")
    pal = h.load("palette")
    for cls in (s.HGRBitmap, s.DHGRBitmap):
        h.patch(cls, "MASKED_BITS", h.np.uint64(1) if not isinstance(cls.MASKED_BITS, int) else 1)

    def save(path, *a, **k):
        seen["tables"].append((str(path), seen["now"]))
        seen["now"] = []
    h.patch(g.np, "savez_compressed", save)
    h.patch(g.os, "mkdir", lambda *a, **k: None)
    g.main()
    done = set()
    for path, calls in seen["tables"]:
        base = path.split("/")[-1]
        found = [(m, p) for m in ("HGR", "DHGR") for p in pal.PALETTES.values()
                 if base.startswith("%s_palette_%d_" % (m, p.ID.value))]
        h.claim("name of a table", len(found) == 1)
        if len(found) != 1:
            continue
        mode, p = found[0]
        done.add((mode, p.ID.name))
        enum = cm.HGRColours if mode == "HGR" else cm.DHGRColours
        h.claim("distances were computed for %s" % base, len(calls) > 0)
        for ins, dele, sub in calls:
            h.claim("costs are given (%s)" % base, ins is not None and dele is not None and sub is not None)
            if ins is None or dele is None or sub is None:
                continue
            chars = "0123456789ABCDEF"
            for x in chars:
                for y in chars:
                    h.claim("replacing is cheaper than %s inserted and %s deleted" % (x, y),
                            h.flat(ins)[ord(x)] + h.flat(dele)[ord(y)] >= 65536)
            n = h.shape(sub)[1]
            f = h.flat(sub)

            def colour(v, cl):
                return p.RGB[cm.HGRColours[[m.name for m in cl if m.value == v][0]]]
            for i, x in enumerate(chars):
                for j, y in enumerate(chars):
                    e = f[ord(x) * n + ord(y)]
                    right = cie(convert(colour(i, enum), "LabColor"), convert(colour(j, enum), "LabColor"))
                    if i == j:
                        h.claim("no cost for equal pixels %s (%s)" % (x, base), h.eq(e, 0))
                    h.claim("cost is symmetric for %s%s (%s)" % (x, y, base), h.eq(e, f[ord(y) * n + ord(x)]))
                    if mode == "HGR":
                        h.claim("cost of %s for %s (%s)" % (x, y, base), h.eq(e, right))
                    else:
                        listed = cie(convert(colour(i, cm.HGRColours), "LabColor"),
                                     convert(colour(j, cm.HGRColours), "LabColor"))
                        h.claim("cost of %s for %s is that of the mode's colours or of HGR's (%s)" % (x, y, base),
                                h.or_(h.eq(e, right), h.eq(e, listed)))
                        h.claim("cost of %s for %s (%s)" % (x, y, base), h.eq(e, right), key="dhgr-numbering")
    h.claim("all modes and palettes", len(done) == 2 * len(pal.PALETTES))
    h.cover("reached")


def c11_configs(tier):
    return [("colours_s", "c11", {})]

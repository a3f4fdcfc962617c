"""The whole transcoder from the command line to the bytes of the file (X01)."""
import fractions
import os

from . import sched
from .audio_s import Setup
from .encoder_s import View, touched
from .movie_s import REPO, routines
from .screen_s import hole, window
from .tools_s import World, Out

real_open = open

# places of the screen at which the converted frames have content
PLACES = [(p, o) for p, o in (
    (0, 0), (0, 39), (0, 40), (1, 119), (3, 128), (3, 129), (7, 247), (16, 5), (17, 6), (30, 200), (31, 0), (31, 247))]


def value(key, i):
    """Content of a converted frame at the i-th place; differs between frames, modes, palettes and banks."""
    n = i * 11 + 1
    for c in key:
        n = (n * 31 + ord(c)) % 65521
    return 1 + n % 126


def distance(pal):
    """The table of a palette: weighted number of differing bits, the weights differ between palettes."""
    def f(o, a, b):
        x, r = a ^ b, 0
        for i in range(14):
            r = r + ((x >> i) & 1) * (5 + i if pal == "NTSC" else 18 - i)
        return r
    return f


class Sparse(World):
    """Converted frames that are black but for a few places."""

    def __init__(self, h, sym):
        World.__init__(self, h)
        self.sym = sym          # key -> {index of a place: symbolic value}

    def content(self, key):
        s = self.sym.get(key, {})
        return [s.get(i, value(key, i)) for i in range(len(PLACES))]

    def blob(self, key, shape):
        a = self.h.u8_array("z", shape, [], lambda i: 0)
        for (p, o), v in zip(PLACES, self.content(key)):
            self.h.put(a, (p * 256 + o,) if len(shape) == 1 else (p, o), v)
        return a


def x01(h, mode, pal, rate, fps, frames, every=None, norm=None, limit=None, nsamples=None, symsample=None, symcell=None,
        blocks=3, channels=2, source=44100):
    dhgr = mode == "DHGR"
    name = "films/movie.mp4"
    sym = {}
    w = Sparse(h, sym)
    w.rate = fps
    w.video = ["v%d" % i for i in range(frames)]
    w.sched = sched.Sched()
    nsamples = nsamples if nsamples is not None else 4000
    vals = [((i * 2311 + 17) % 65536) - 32768 for i in range(nsamples)]
    raw = []
    for i, v in enumerate(vals):
        v &= 0xffff
        raw += [v & 255, v >> 8] + [0x55, 0xaa] * (channels - 1)
    if symsample is not None:
        lo, hi = h.u8("lo"), h.u8("hi")
        raw[2 * channels * symsample:2 * channels * symsample + 2] = [lo, hi]
        v = h.py(lo) + 256 * h.py(hi)
        vals[symsample] = h.ite(v >= 32768, v - 65536, v)
    cuts = [0] + [2 * channels * (nsamples * (k + 1) // blocks) for k in range(blocks - 1)] + [len(raw)]
    chunks = [h.bytes(raw[a:b]) for a, b in zip(cuts, cuts[1:])]
    outs = []

    def fake_open(path, m="r", *a, **k):
        if str(path).endswith(".dbg"):
            return real_open(os.path.join(REPO, "player/iivision.dbg"))
        o = Out(h, str(path), m)
        outs.append(o)
        return o
    su = Setup(h, channels, source, chunks, raw_mono=True, pct=(-16384.0, 100.0), extra=w.stubs(w.sched),
               builtin_overrides={"open": fake_open})
    h.patch(h.load("frame_grabber").np, "fromfile", w.fromfile)
    scr = h.load("screen")
    tabs = {}

    def edit_distances(cls, p=None, *a, **k):
        if p.name not in tabs:
            tabs[p.name] = h.table_fn(4 if dhgr else 2, 13 if dhgr else 14, distance(p.name))
        return tabs[p.name]
    h.patch(scr.Bitmap, "edit_distances", classmethod(edit_distances))
    h.rnd_fixed = 0
    mm, pm = h.load("main"), h.load("palette")
    if symcell is not None:
        fr, at, bank = symcell
        key = "v%d_%s_P%d_%s" % (fr, mode.lower(), pm.Palette[pal].value, bank)
        sym[key] = {at: h.num("cell", "uint8", 0, 127 if dhgr else 255)}
    argv = [name, "--output", "x/out.a2m", "--video_mode", mode, "--palette", pal]
    for o, x in (("--audio_bitrate", rate), ("--every_n_video_frames", every), ("--audio_normalization", norm),
                 ("--max_output_mb", limit)):
        if x is not None:
            argv += [o, str(x)]
    h.threads(w.sched.busy)
    try:
        mm.main(mm.parser.parse_args(argv))
        end = "end"
    except sched.Deadlock:
        end = "hang"
    finally:
        w.sched.finish()
        h.threads(False)
    h.claim("transcoding ends", end == "end")
    files = [o for o in outs if any(c in o.mode for c in "wax+")]
    h.claim("one file is written", len(files) == 1 and files[0].path == "x/out.a2m")
    out = [h.py(b) for b in files[0].b]

    # ---- inputs
    rate, every = rate or 14700, every or 2
    h.claim("audio is resampled from the file's rate to the chosen one",
            all(h.concrete(a) == source and h.concrete(b) == rate for a, b, _ in su.log))
    h.claim("frames are converted for the mode and palette", all(
        m == mode.lower() and p == "P%d" % pm.Palette[pal].value for _, m, p in w.conversions))
    h.claim("the input is the given file", all(x == name for x in w.inputs + su.opened) and len(w.inputs) > 0 and len(su.opened) > 0)

    # ---- what the stream should be
    a, b = fps.split("/")
    per = fractions.Fraction(rate) * int(b) / int(a)
    due = [max(1, -(-(k * per) // 1)) for k in range(frames + 1)]
    if len(set(due)) != len(due):
        raise ValueError("more than one frame per tick")
    ticks = min(nsamples, int(due[frames]) - 1)
    byadr = dict((v, k) for k, v in routines().items() if k.startswith("op_"))
    h.claim("the file is a multiple of 2048 bytes", len(out) % 2048 == 0)

    def routine(i):
        return byadr.get(h.concrete(out[i]) * 256 + h.concrete(out[i + 1]))
    h.claim("header", h.eq(out[6], 1 if dhgr else 0))
    screens = {False: {}, True: {}}
    bank, pos, n, stop, acks = False, 7, 0, None, 0
    changed = {False: 0, True: 0}
    shown = None
    cap = None if limit is None else int(fractions.Fraction(str(limit)) * 1048576)
    factor = norm if norm is not None else 1.0        # percentile 16384 is full scale
    keyof = lambda f, aux: "v%d_%s_P%d_%s" % (f, mode.lower(), pm.Palette[pal].value, "aux" if aux else "main")  # noqa

    def current(n):
        """The frame encoded at tick n."""
        return max(k for k in range(frames) if due[k] <= n and k % every == 0)
    while pos + 1 < len(out):
        if pos % 2048 == 2044:
            h.claim("ACK at the end of the 2K frame", routine(pos) == "op_ack")
            bank = not bank if dhgr else False
            h.claim("ACK selects the bank", h.eq(out[pos + 2], 0x55 if bank else 0x54))
            pos += 4
            continue
        # the address depends on the sample, so it may be symbolic
        if symsample is not None and n == symsample:
            r = byadr.get(h.forkint(out[pos]) * 256 + h.forkint(out[pos + 1]))
        else:
            r = routine(pos)
        if r == "op_terminate":
            h.claim("zeros up to the end", h.and_(len(out) - pos <= 2048 + 2, h.all([h.eq(x, 0) for x in out[pos + 2:]])))
            stop = pos
            break
        f = (r or "").split("_")
        h.claim("tick opcode", r is not None and f[:2] == ["op", "tick"] and len(f) == 5)
        if n >= ticks:
            h.claim("no more ticks than samples", False)
            return
        d, page = int(f[2]), int(f[4])
        s, st = vals[n], (d - 34) // 2
        # step = trunc(s / 16384 * factor * 16), clipped; exact for factors that are powers of two
        num, den = fractions.Fraction(factor).limit_denominator(1024).numerator, \
            fractions.Fraction(factor).limit_denominator(1024).denominator * 1024
        if isinstance(s, int):
            q = abs(s) * num // den * (1 if s >= 0 else -1)
            h.claim("tick %d plays its sample" % n, st == max(-15, min(16, q)))
        else:
            x = s * num
            cs = []
            if -15 < st < 16:
                cs = [x >= st * den if st > 0 else x > (st - 1) * den, x < (st + 1) * den if st >= 0 else x <= st * den]
            elif st == 16:
                cs = [x >= 16 * den]
            else:
                cs = [x <= -15 * den]
            h.claim("tick %d plays its sample" % n, h.and_(*cs))
        cont, offs = out[pos + 2], [h.forkint(x) for x in out[pos + 3:pos + 7]]
        n += 1
        if n == 1:
            # nothing is pending but the errors of the first frame, measured with the palette's table
            img = [h.u8_array("img", (32, 256), [], lambda i: 0) for _ in range(2)]
            for x, k in zip(img, (False, True)):
                for c, v in zip(PLACES, w.content(keyof(0, k))):
                    h.put(x, c, v)
            blank = View(h, dhgr, *[h.u8_array("img", (32, 256), [], lambda i: 0) for _ in range(2)])
            view, f = View(h, dhgr, *img), distance(pal)
            err = {c: f(0, window(blank, c[0], c[1], False), window(view, c[0], c[1], False))
                   for c in touched(dhgr, False, PLACES, True)}
            h.claim("the first store goes to the largest error", h.all(
                [err.get((page - 32, offs[0]), 0) >= e for e in err.values()]))
        fr = current(n)
        want = w.content(keyof(fr, bank))
        tgt = dict(zip(PLACES, want))
        h.claim("store %d writes the current frame's byte" % n,
                h.eq(cont, tgt.get((page - 32, offs[0]), 0)))
        for o in offs:
            h.claim("store %d goes to a visible byte" % n, not hole(o))
            screens[bank][(page - 32, o)] = cont
        # when the frame is replaced (or the stream ends) long after it began, it is on the screen
        if (fr, bank) != shown:
            shown, begun = (fr, bank), n
        if n - begun == 60:
            cells = set(screens[bank]) | set(PLACES)
            h.claim("frame %d is on the screen" % fr, h.all(
                [h.eq(screens[bank].get(c, 0), tgt.get(c, 0)) for c in sorted(cells)]))
            h.cover("shown")
        pos += 7
    h.claim("the stream is terminated", stop is not None)
    if cap is None:
        h.claim("one tick per sample until the frames run out", n == ticks)
    else:
        h.claim("the stream stops at the limit", h.or_(n == ticks, cap <= stop < cap + 11))
        h.claim("reached the limit", n < ticks)
    h.cover("reached")


def x01_configs(tier):
    j = lambda **k: ("whole_s", "x01", k)  # noqa
    out = [
        j(mode="DHGR", pal="NTSC", rate=None, fps="21/1", frames=3, nsamples=2500, symcell=[2, 4, "aux"]),
        j(mode="DHGR", pal="IIGS", rate=14700, fps="30000/1001", frames=4, every=3, norm=0.5, symcell=[0, 2, "main"]),
        j(mode="HGR", pal="NTSC", rate=22500, fps="75/2", frames=3, every=1, norm=2.0, symcell=[1, 5, "main"]),
        j(mode="HGR", pal="IIGS", rate=11025, fps="60/1", frames=5, every=2, limit=0.005, symcell=[2, 9, "main"]),
        j(mode="HGR", pal="NTSC", rate=None, fps="30/1", frames=1, every=1, norm=4.0, nsamples=80, symsample=70),
        j(mode="DHGR", pal="NTSC", rate=None, fps="15/1", frames=1, nsamples=310, symsample=300, channels=1),
    ]
    return out

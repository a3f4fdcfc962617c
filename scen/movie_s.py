"""Scenarios for the byte stream: framing, opcodes, bank steering, timing (S01 to S05, S07, S08)."""
import os

from . import sched, tools_s
from .encoder_s import stubs as video_stubs

REPO = os.environ.get("VERIF_REPO", "/repo")


def stubs(h):
    d = video_stubs(h)
    d["librosa"] = h.module("librosa")
    d["audioread"] = h.module("audioread")
    return d


def routines():
    """Addresses of the player's routines, from the debug file (own parser)."""
    out = {}
    with open(os.path.join(REPO, "player/iivision.dbg")) as f:
        for line in f:
            if line.startswith("sym\t"):
                d = dict(kv.split("=", 1) for kv in line[4:].strip().split(","))
                n = d["name"].strip('"')
                if "val" in d:
                    out[n] = int(d["val"], 16)
    return out


class Fakes:
    """What the stand-ins for audio input and frame grabber deliver."""

    def __init__(self, samples=(), frames=(), rate=14700, fps=30.):
        self.samples, self.frames, self.rate, self.fps = samples, frames, rate, fps
        self.args = {}


def movie(h, dhgr, fk, every_n=1, limit=None, pal=None):
    """A Movie built by its own constructor over stand-ins for audio and frames."""
    h.world(stubs=stubs(h))
    audio, fg = h.load("audio"), h.load("frame_grabber")

    class Audio:
        def __init__(self, *a, **k):
            fk.args["audio"] = (a, k)
            self.sample_rate = float(fk.rate)

        def audio_stream(self):
            return iter(fk.samples)

    class Grabber:
        def __init__(self, *a, **k):
            fk.args["grabber"] = (a, k)
            self.input_frame_rate = fk.fps

        def frames(self):
            return iter(fk.frames)
    h.patch(audio, "Audio", Audio)
    h.patch(fg, "FileFrameGrabber", Grabber)
    mv, vm, palette = h.load("movie"), h.load("video_mode"), h.load("palette")
    m = mv.Movie("in.mp4", every_n_video_frames=every_n, max_bytes_out=limit,
                 video_mode=vm.VideoMode.DHGR if dhgr else vm.VideoMode.HGR,
                 palette=palette.Palette.NTSC if pal is None else pal)
    return m


def is_byte(h, b):
    b = h.py(b)
    return h.and_(b >= 0, b <= 255)


# ------------------------------------------------------------------ S01

def tick_ops(h, n, start=0):
    """n tick opcodes of varying kind with symbolic content and offsets, and their bytes."""
    oc = h.load("opcodes")
    adr = routines()
    ops, want = [], []
    for i in range(n):
        d, p = 4 + 2 * ((i * 7 + start) % 32), 32 + (i * 5 + i // 32 + start) % 32
        vals = [h.u8("b%d_%d" % (start + i, j)) for j in range(5)]
        ops.append(oc.TICK_OPCODES[(d, p)](vals[0], vals[1:]))
        a = adr["op_tick_%d_page_%d" % (d, p)]
        want.append([a >> 8, a & 255] + [h.py(v) for v in vals])
    return ops, want


def same(h, got, want):
    return h.and_(len(got) == len(want), h.all([h.eq(h.py(a), b) for a, b in zip(got, want)]))


def s01_start(h, dhgr, frames):
    m = movie(h, dhgr, Fakes())
    oc, vm = h.load("opcodes"), h.load("video_mode")
    n = 292 * frames + 3 - 1
    ops, want = tick_ops(h, n)
    hdr = oc.Header(mode=vm.VideoMode.DHGR if dhgr else vm.VideoMode.HGR)
    adr = routines()
    out = list(m.emit_stream(iter([hdr] + ops)))
    h.claim("every value emitted is a byte", h.all([is_byte(h, b) for b in out]))
    h.claim("the header takes seven bytes and ends with the mode", h.eq(h.py(out[6]), 1 if dhgr else 0))
    pos, k, bank = 7, 0, False
    for f in range(frames):
        while pos < 2048 * f + 2044:
            h.claim("opcode %d at byte %d" % (k, pos), same(h, out[pos:pos + 7], want[k]))
            pos += 7
            k += 1
        ack = adr["op_ack"]
        h.claim("frame %d ends with an ACK" % f, same(h, out[pos:pos + 2], [ack >> 8, ack & 255]))
        pos += 4
        h.claim("the ACK ends the frame", pos == 2048 * (f + 1))
    while k < n:
        h.claim("opcode %d at byte %d" % (k, pos), same(h, out[pos:pos + 7], want[k]))
        pos += 7
        k += 1
    t = adr["op_terminate"]
    h.claim("TERMINATE follows the last opcode", same(h, out[pos:pos + 2], [t >> 8, t & 255]))
    h.cover("reached")


def s01_step(h, dhgr, js, nops, aux):
    """From any opcode boundary j of any frame."""
    adr = routines()
    ack = adr["op_ack"]
    m = movie(h, dhgr, Fakes())
    if not hasattr(m, "stream_pos") or not hasattr(m, "aux_memory_bank"):
        return
    k = h.int("frame", 0, 2 ** 40)
    for j in js:
        m.stream_pos = k * 2048 + 7 * j
        m.aux_memory_bank = aux
        ops, want = tick_ops(h, nops, start=j)
        out = []
        it = m.emit_stream(iter(ops))
        bank = aux
        pos = 7 * j
        for i in range(nops):
            got = [next(it) for _ in range(7)]
            h.claim("opcode after boundary %d" % j, same(h, got, want[i]))
            pos += 7
            if pos == 2044:
                got = [next(it) for _ in range(4)]
                bank = (not bank) if dhgr else False
                h.claim("ACK at the end of the frame from boundary %d" % j, same(
                    h, got[:3], [ack >> 8, ack & 255, 0x55 if bank else 0x54]))
                h.claim("ACK's filler is a byte", is_byte(h, got[3]))
                pos = 0
        nxt = next(it)
        t = adr["op_terminate"]
        h.claim("no further ACK at boundary %d" % j, h.eq(h.py(nxt), t >> 8))
    h.cover("step reached")


def s01_configs(tier):
    out = [("movie_s", "s01_start", {"dhgr": d, "frames": 3 if tier == "quick" else 40}) for d in (False, True)]
    for d, a in ((False, False), (True, False), (True, True)):
        for lo in range(0, 292, 73):
            out.append(("movie_s", "s01_step", {"dhgr": d, "js": list(range(lo, lo + 73)), "nops": 2, "aux": a}))
        if tier == "thorough":
            out.append(("movie_s", "s01_step", {"dhgr": d, "js": [0, 1, 100, 291], "nops": 600, "aux": a}))
    return out


# ------------------------------------------------------------------ S02

def s02_ticks(h, dlo):
    h.world(stubs=stubs(h))
    oc, mc = h.load("opcodes"), h.load("machine")
    adr = routines()
    v = [h.u8("v%d" % i) for i in range(5)]
    w = [h.u8("w%d" % i) for i in range(5)]
    st = mc.Machine()
    for d in range(dlo, dlo + 8, 2):
        for p in range(32, 64):
            op = oc.TICK_OPCODES[(d, p)](v[0], v[1:])
            got = list(st.emit(op))
            a = adr["op_tick_%d_page_%d" % (d, p)]
            h.claim("bytes of tick %d page %d" % (d, p), same(h, got, [a >> 8, a & 255] + [h.py(x) for x in v]))
            op2 = oc.TICK_OPCODES[(d, p)](w[0], w[1:])
            same_data = h.all([h.eq(h.py(x), h.py(y)) for x, y in zip(v, w)])
            eq = h.fork(op == op2)
            h.claim("opcodes are equal exactly if their data are", h.and_(h.implies(eq, same_data),
                                                                       h.implies(same_data, eq)))
            if not eq:
                break
        h.claim("opcodes of different duty cycles differ",
                not h.fork(oc.TICK_OPCODES[(d, 40)](v[0], v[1:]) ==
                           oc.TICK_OPCODES[(4 if d != 4 else 66, 40)](v[0], v[1:])))
    h.claim("1024 tick opcodes", len(oc.TICK_OPCODES) == 1024)
    h.claim("of the duty cycles 4 to 66 and pages 32 to 63", set(oc.TICK_OPCODES) == {
        (t, p) for t in range(4, 68, 2) for p in range(32, 64)})
    h.cover("reached")


def s02_lengths(h):
    h.world(stubs=stubs(h))
    oc = h.load("opcodes")
    v = [h.u8("v%d" % i) for i in range(9)]
    for n in range(9):
        for kind in (list, tuple):
            r = h.raises((ValueError,), oc.TICK_OPCODES[(4, 32)], v[0], kind(v[1:1 + n]))
            h.claim("%d offsets are %s" % (n, "accepted" if n == 4 else "rejected"), r == (n != 4))


def s02_control(h):
    h.world(stubs=stubs(h))
    oc, mc, vm = h.load("opcodes"), h.load("machine"), h.load("video_mode")
    adr = routines()
    st = mc.Machine()

    def emit(op):
        return list(st.emit(op))

    for aux in (False, True):
        got = emit(oc.Ack(aux))
        a = adr["op_ack"]
        h.claim("bytes of ACK", h.and_(len(got) == 4, same(h, got[:3], [a >> 8, a & 255, 0x55 if aux else 0x54]),
                                       is_byte(h, got[-1])))
    b = h.bool("aux")
    got = emit(oc.Ack(b))
    h.claim("ACK's bank byte", h.and_(len(got) == 4, h.eq(h.py(got[2]), h.ite(b, 0x55, 0x54))))
    a = adr["op_terminate"]
    h.claim("bytes of TERMINATE", same(h, emit(oc.Terminate()), [a >> 8, a & 255]))
    a = adr["op_nop"]
    h.claim("bytes of NOP", same(h, emit(oc.Nop()), [a >> 8, a & 255]))
    for mode, val in ((vm.VideoMode.HGR, 0), (vm.VideoMode.DHGR, 1)):
        got = emit(oc.Header(mode=mode))
        h.claim("bytes of the header", h.and_(len(got) == 7, h.all([is_byte(h, x) for x in got]),
                                              h.eq(h.py(got[6]), val)))
    h.claim("ACKs of different banks differ", h.and_(oc.Ack(True) == oc.Ack(True), h.not_(oc.Ack(True) == oc.Ack(False)),
                                                    h.not_(oc.Terminate() == oc.Ack(True))))
    every = [adr["op_tick_%d_page_%d" % (t, p)] for t in range(4, 68, 2) for p in range(32, 64)] + [
        adr["op_ack"], adr["op_terminate"], adr["op_nop"]]
    h.claim("routines have different addresses", len(set(every)) == len(every))
    h.cover("reached")


def s02_configs(tier):
    return [("movie_s", "s02_ticks", {"dlo": d}) for d in range(4, 68, 8)] + [
        ("movie_s", "s02_lengths", {}), ("movie_s", "s02_control", {})]


# ------------------------------------------------------------------ S03, S04

class Tag:
    """Stands for a frame's bitmap."""

    def __init__(self, n):
        self.n = n


def drive(h, dhgr, flags, nticks, every_n=1, samples=None, frames=100000, page=33):
    """Runs emit_stream(encode()) over a recording stand-in for the encoder.

    flags: tick number -> truth value of "a new frame is due"."""
    s = None
    fk = Fakes()
    h.world(stubs=stubs(h))
    s = h.load("screen")
    video = h.load("video")
    log = {"frames": 0, "gens": []}

    def frame_iter():
        for i in range(frames):
            log["frames"] += 1
            yield ("main", i), (("aux", i) if dhgr else None)

    import inspect
    sig = inspect.signature((s.DHGRBitmap if dhgr else s.HGRBitmap).__init__)

    class Bitmap:
        def __init__(self, *a, **k):
            b = sig.bind(self, *a, **k).arguments
            main_memory, aux_memory = b["main_memory"], b.get("aux_memory")
            self.frame = main_memory[1]
            self.ok = (main_memory[0] == "main" and b["palette"] is log["palette"] and
                       (aux_memory == ("aux", self.frame) if dhgr else aux_memory is None))
    fk.samples = [0] * nticks if samples is None else samples
    fk.frames = frame_iter()
    log["palette"] = h.load("palette").Palette.IIGS
    m = movie(h, dhgr, fk, every_n=every_n, pal=log["palette"])
    h.patch(s, "DHGRBitmap" if dhgr else "HGRBitmap", Bitmap)

    def tick(self, ticks):
        f = flags(ticks)
        if h.fork(f):
            self.frame_number += 1
            return True
        return False

    def encode_frame(self, target, is_aux):
        g = len(log["gens"])
        log["gens"].append((target, is_aux))

        def gen():
            n = 0
            # the encoder may have resolved everything for this bank at any time
            ow = getattr(self, "out_of_work", None)
            if isinstance(ow, dict) and is_aux in ow:
                ow[is_aux] = h.bool("out_of_work_%d" % g)
            while True:
                yield page, g % 128, [g // 128, n & 255, n >> 8, 7]
                n += 1
        return gen()
    h.patch(video.Video, "tick", tick)
    h.patch(video.Video, "encode_frame", encode_frame)
    return m, log


def s03(h, dhgr, nticks, sym, every_n=1, yes=(1,)):
    fl = {}

    def flags(t):
        if t in sym:
            if t not in fl:
                fl[t] = h.bool("frame_at_%d" % t)
            return fl[t]
        return t in yes
    m, log = drive(h, dhgr, flags, nticks, every_n)
    adr = routines()
    out = [h.concrete(h.py(b)) for b in m.emit_stream(m.encode())]
    bank = False
    pos = 7
    t = 0
    due = -1
    target = None
    ack = adr["op_ack"]
    per = {}
    for k in range(nticks):
        t += 1
        f = h.fork(flags(t))
        if f:
            due += 1
            if due % every_n == 0:
                target = due
        op = out[pos:pos + 7]
        g = op[2] + 128 * op[3]
        n = op[4] + 256 * op[5]
        if g >= len(log["gens"]):
            h.claim("tick %d's opcode comes from the encoder" % t, False)
            return
        tgt, is_aux = log["gens"][g]
        h.claim("tick %d stores to the bank it was computed for" % t, bool(is_aux) == bank)
        h.claim("tick %d works towards the latest frame" % t, tgt.frame == target and tgt.ok)
        h.claim("tick %d is the encoder's next store" % t, n == per.get(g, 0))
        per[g] = n + 1
        pos += 7
        if pos % 2048 == 2044:
            h.claim("an ACK ends the frame", out[pos:pos + 2] == [ack >> 8, ack & 255])
            bank = not bank if dhgr else False
            h.claim("the ACK names the bank", out[pos + 2] == (0x55 if bank else 0x54))
            pos += 4
    h.claim("frames are consumed as they become due", log["frames"] == due + 1)
    h.cover("three banks", pos > 4096)


def s03_configs(tier):
    out = []
    sy = [2, 290, 291, 292, 293, 582, 583, 584, 585]
    if tier == "thorough":
        sy = [2, 3, 289, 290, 291, 292, 293, 294, 582, 583, 584, 585, 586]
    for d in (True, False):
        for n in ((1, 2) if tier == "quick" else (1, 2, 3)):
            q = sy if d else [2, 291, 292]
            out.append(("movie_s", "s03", {"dhgr": d, "nticks": 600, "sym": q, "every_n": n}))
    # frames due long before a bank changes, and not at all afterwards
    out.append(("movie_s", "s03", {"dhgr": True, "nticks": 292 * (4 if tier == "quick" else 20),
                                   "sym": [100, 400, 700], "every_n": 1}))
    return out


def s04(h, page, samples, sym_page=False, frames=True, nticks=3):
    """Symbolic samples (and store pages)."""
    oc = None
    sam = []
    for i in range(nticks):
        if i in samples:
            v = h.num("sample%d" % i, "int64", -15, 16)
        else:
            v = i - 3
        sam.append(v)
    flags = {}

    def fl(t):
        if t == 1:
            return True
        if not frames:
            return False
        if t not in flags:
            flags[t] = h.bool("frame_at_%d" % t)
        return flags[t]
    pg = h.int("page", 32, 63) if sym_page else page
    m, log = drive(h, False, fl, nticks, samples=sam, page=pg)
    oc = h.load("opcodes")
    ops = list(m.encode())
    h.claim("the first opcode is the header", type(ops[0]) is oc.Header)
    h.claim("one tick opcode per sample", len(ops) == nticks + 1)
    adr = routines()
    st = h.load("machine").Machine()
    ok = []
    g = -1
    n = 0
    for i, op in enumerate(ops[1:]):
        s = h.py(sam[i])
        by = list(st.emit(op))
        cs = h.forkint(s)
        p = h.forkint(pg)
        if i == 0 or h.fork(fl(i + 1)):
            g += 1
            n = 0
        a = adr["op_tick_%d_page_%d" % (34 + 2 * cs, p)]
        h.claim("sample %d's opcode has its duty cycle and the encoder's store" % i,
                same(h, by, [a >> 8, a & 255, g, 0, n, 0, 7]))
        n += 1
    h.cover("reached")


def s04_long(h, dhgr, n, at):
    """A long run of samples with one symbolic: order is kept across ACKs."""
    sam = [((i * 11) % 32) - 15 for i in range(n)]
    for i in at:
        sam[i] = h.num("sample%d" % i, "int64", -15, 16)
    m, log = drive(h, dhgr, lambda t: t in (1, 2, 291, 292, 293, 700), n, samples=sam)
    adr = routines()
    out = list(m.emit_stream(m.encode()))
    pos = 7
    for i in range(n):
        s = h.py(sam[i])
        a = None
        got = h.py(out[pos]) * 256 + h.py(out[pos + 1])
        want = 0
        if h.concrete(s) is not None:
            want = adr["op_tick_%d_page_33" % (34 + 2 * h.concrete(s))]
        else:
            for v in range(-15, 17):
                want = h.ite(h.eq(s, v), adr["op_tick_%d_page_33" % (34 + 2 * v)], want)
        h.claim("sample %d in order" % i, h.eq(got, want))
        pos += 7
        if pos % 2048 == 2044:
            pos += 4
    h.claim("nothing follows but the end", len(out) % 2048 == 0 and len(out) - pos <= 2048)


def s04_configs(tier):
    out = [("movie_s", "s04", {"page": 40, "samples": [1], "frames": True}),
           ("movie_s", "s04", {"page": 40, "samples": [0], "sym_page": True, "frames": False, "nticks": 1}),
           ("movie_s", "s04", {"page": 63, "samples": [0, 2], "frames": False})]
    for d in (False, True):
        out.append(("movie_s", "s04_long", {"dhgr": d, "n": 760, "at": [290]}))
        out.append(("movie_s", "s04_long", {"dhgr": d, "n": 760, "at": [291]}))
        if tier == "thorough":
            for i in range(0, 600, 10):
                out.append(("movie_s", "s04_long", {"dhgr": d, "n": 600, "at": [i]}))
    return out


# ------------------------------------------------------------------ S07

def s07(h, dhgr, j, nops, limit, over=0):
    """nops opcodes are left at boundary j of any frame; limit: none, zero or any."""
    adr = routines()
    m = movie(h, dhgr, Fakes())
    if not hasattr(m, "stream_pos") or not hasattr(m, "max_bytes_out"):
        return
    k = h.int("frame", 0, 2 ** 20)
    m.stream_pos = k * 2048 + 7 * j
    lim = None
    if limit == "any":
        lim = h.int("limit", 1, 2 ** 32)
        m.max_bytes_out = lim
    elif limit == "zero":
        m.max_bytes_out = 0.0
    else:
        m.max_bytes_out = None
    ops, want = tick_ops(h, nops, start=j)
    it = m.emit_stream(iter(ops))
    out = [h.py(b) for b in it]
    pos = 7 * j
    i = 0
    n = 0
    ack, t = adr["op_ack"], adr["op_terminate"]
    while i < nops:
        if lim is not None and h.fork(k * 2048 + pos >= lim):
            break
        h.claim("opcode %d is emitted below the limit" % i, same(h, out[n:n + 7], want[i]))
        i += 1
        n += 7
        pos += 7
        if pos % 2048 == 2044:
            h.claim("the frame is acknowledged", same(h, out[n:n + 2], [ack >> 8, ack & 255]))
            n += 4
            pos += 4
    h.claim("then TERMINATE", same(h, out[n:n + 2], [t >> 8, t & 255]))
    h.claim("then zeros to the end", same(h, out[n + 2:], [0] * len(out[n + 2:])))
    h.claim("the stream ends at the next frame boundary",
            len(out) - n - 2 == 2048 - (pos + 2) % 2048)
    h.cover("limit reached", lim is not None and i < nops)
    h.cover("all opcodes emitted", i == nops)


def s07_run(h, dhgr, nticks, limit):
    """Whole streams, from the header to the end."""
    m, log = drive(h, dhgr, lambda t: t == 1, nticks)
    lim = h.int("limit", 1, limit)
    m.max_bytes_out = lim
    out = [h.concrete(h.py(b)) for b in m.emit_stream(m.encode())]
    adr = routines()
    t = adr["op_terminate"]
    want = min(7 * (nticks + 1) + 4 * ((7 * (nticks + 1)) // 2044), 10 ** 9)
    h.claim("the stream is made of whole frames", len(out) % 2048 == 0)
    h.claim("at most one opcode beyond the limit, rounded up to a frame",
            h.implies(True, len(out) <= ((lim + 7 + 4 + 2 + 2047) // 2048) * 2048))
    pos, n = 0, 0
    while n <= nticks and not h.fork(pos >= lim):
        pos += 7
        n += 1
        if pos % 2048 == 2044:
            pos += 4
    h.claim("TERMINATE at the end", out[pos:pos + 2] == [t >> 8, t & 255])
    h.claim("zeros after it", not any(out[pos + 2:]) and len(out) == pos + 2 + 2048 - (pos + 2) % 2048)


def s07_configs(tier):
    out = []
    js = (0, 1, 145, 290, 291) if tier == "quick" else range(292)
    for d in (False, True):
        for j in js:
            for lim in ("any", "none", "zero"):
                out.append(("movie_s", "s07", {"dhgr": d, "j": j, "nops": 3, "limit": lim}))
        out.append(("movie_s", "s07", {"dhgr": d, "j": 290, "nops": 0, "limit": "none"}))
        out.append(("movie_s", "s07_run", {"dhgr": d, "nticks": 12, "limit": 100}))
        if tier == "thorough":
            out.append(("movie_s", "s07_run", {"dhgr": d, "nticks": 600, "limit": 5000}))
    return out


# ------------------------------------------------------------------ S05


def ticker(h, rate, num, den):
    """A Video for an input file of num/den frames per second, opened by the real frame grabber."""
    w = tools_s.World(h)
    w.rate = "%d/%d" % (num, den)
    h.world(stubs=dict(stubs(h), **w.stubs(sched.Sched())))
    fg, video, vm = h.load("frame_grabber"), h.load("video"), h.load("video_mode")
    g = fg.FileFrameGrabber("films/movie.mp4", mode=vm.VideoMode.HGR, palette=h.load("palette").Palette.NTSC)
    return video.Video(g, ticks_per_second=rate, mode=vm.VideoMode.HGR)


def s05_tick(h, rate, num, den, fbits):
    """One tick from any number of frames requested so far; frame k is due at k*rate*den/num."""
    h.float_intervals()
    v = ticker(h, float(rate), num, den)
    # what does tick() keep between calls?  (the step below sets the frame number only)
    probe = ticker(h, float(rate), num, den)
    before = dict(vars(probe))
    for i in (1, 2, int(rate * den / num) + 2):
        probe.tick(i)
    if [k for k in vars(probe) if k not in before or before[k] is not vars(probe)[k]] != ["frame_number"]:
        return
    f0 = h.int("frames", 0, 2 ** fbits - 1)
    top = (2 ** fbits * rate * den) // num + 10
    t = h.int("t", 1, top)
    eps = 1   # thousandths of a tick

    def due(k, at, slack):
        """Has frame k been due for `slack` thousandths of a tick at tick `at`?"""
        return at * (1000 * num) >= k * (1000 * rate * den) + slack * num
    # before this tick every frame that was due has been requested, and none too early
    h.assume(h.not_(due(f0, t - 1, eps)))
    h.assume(h.implies(f0 > 0, due(f0 - 1, t - 1, -eps)))
    v.frame_number = f0
    r = h.fork(v.tick(t))
    f1 = h.py(v.frame_number)
    h.claim("a frame is requested only when due", h.implies(r, due(f0, t, -eps)))
    h.claim("a due frame is requested at once", h.implies(not r, h.not_(due(f0, t, eps))))
    h.claim("requesting counts the frame", h.eq(f1, f0 + (1 if r else 0)))
    h.claim("as many frames requested as are due", h.and_(
        h.not_(due(f1, t, eps)), h.implies(f1 > 0, due(f1 - 1, t, -eps))))
    h.cover("requested", r)
    h.cover("not requested", not r)


def s05_start(h, rlo, rhi, num, den, nticks, base=0):
    """The first ticks, for any integral audio rate."""
    h.float_intervals()
    rate = h.int("rate", rlo, rhi)
    v = ticker(h, rate, num, den)
    f = 0
    eps = 1
    for t in range(1, nticks + 1):
        r = h.fork(v.tick(t))
        h.claim("a frame is requested only when due",
                h.implies(r, t * (1000 * num) >= rate * (f * 1000 * den) - eps * num))
        h.claim("a due frame is requested at once",
                h.implies(not r, t * (1000 * num) <= rate * (f * 1000 * den) + eps * num))
        f += 1 if r else 0
    h.cover("several frames", f > 2)


def s05_skip(h, dhgr, every_n, nframes, sym):
    """Which frames are encoded, and where the stream ends."""
    fl = {}

    def flags(t):
        if t in sym:
            if t not in fl:
                fl[t] = h.bool("frame_at_%d" % t)
            return fl[t]
        return t == 1
    n = max(sym) + 3
    m, log = drive(h, dhgr, flags, n, every_n, frames=nframes)
    oc = h.load("opcodes")
    ops = list(m.encode())
    due, want = 0, []
    end = n
    for t in range(1, n + 1):
        if h.fork(flags(t)):
            if due == nframes:
                end = t - 1
                break
            if due % every_n == 0:
                want.append(due)
            due += 1
    h.claim("the stream ends when frames run out", len(ops) == 1 + end)
    h.claim("every n-th frame is encoded", [g[0].frame for g in log["gens"]] == want)
    h.claim("every due frame is consumed", log["frames"] == due)
    h.cover("frames ran out", end < n)


def s05_configs(tier):
    out = []
    rates = (14700, 14364, 22500) if tier == "quick" else (14700, 14364, 14367, 22500, 22050, 44100, 8000, 11025, 15000)
    fps = [(30, 1), (30000, 1001), (24, 1), (24000, 1001), (25, 1), (60, 1), (25, 2), (2997, 100), (15, 1), (10, 1)]
    for r in rates:
        for num, den in fps:
            out.append(("movie_s", "s05_tick", {"rate": r, "num": num, "den": den, "fbits": 20}))
    for num, den in ((30, 1), (30000, 1001), (60, 1)) if tier == "quick" else fps[:7]:
        step = 100 if tier == "quick" else 50
        for lo in (14300, 14600, 22400) if tier == "quick" else range(8000, 23000, 1000):
            out.append(("movie_s", "s05_start", {"rlo": lo, "rhi": lo + step, "num": num, "den": den,
                                                 "nticks": (2000 if num != 60 else 1000) if tier == "quick" else (6000 if num != 60 else 2000)}))
    for n in (1, 2, 3, 4):
        for d in (False, True):
            out.append(("movie_s", "s05_skip", {"dhgr": d, "every_n": n, "nframes": 4, "sym": [2, 3, 4, 5, 6, 8]}))
    return out

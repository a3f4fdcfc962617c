"""Scenarios for the audio module (S06)."""
from .movie_s import stubs as movie_stubs


class Input:
    """Stands for the audio file."""

    def __init__(self, channels, rate, chunks):
        self.channels, self.samplerate, self.chunks = channels, rate, chunks
        self.duration = 1.0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __iter__(self):
        return iter(self.chunks)

    def read_data(self, *a, **k):
        return iter(self.chunks)

    def close(self):
        pass


class Setup:
    """The audio module over stand-ins for file access, mixing, resampling and percentiles."""

    def __init__(self, h, channels, rate, chunks, resampled=None, pct=(0.0, 0.0), raw_mono=False, extra=None,
                 builtin_overrides=None):
        self.h = h
        self.log = []       # (orig_sr, target_sr, input)
        self.mono = []
        self.opened = []
        n = [0]

        def to_mono(data):
            self.mono.append(data)
            return data[0] if raw_mono else data

        def resample(y, **k):
            self.log.append((k.get("orig_sr"), k.get("target_sr"), y))
            if resampled is None:
                return y
            r = resampled(n[0])
            n[0] += 1
            return r

        def audio_open(name, **k):
            self.opened.append(name)
            return Input(channels, rate, list(chunks))
        core = h.module("librosa.core", to_mono=to_mono, resample=resample)
        d = movie_stubs(h)
        d["librosa"] = h.module("librosa", core=core, to_mono=to_mono, resample=resample)
        d["librosa.core"] = core
        d["audioread"] = h.module("audioread", audio_open=audio_open)
        d.update(extra or {})
        if extra:
            h.world(stubs=d, fresh=True, builtin_overrides=builtin_overrides)
        else:
            h.world(stubs=d)
        self.pcts = []

        def percentile(a, q, axis=None, **k):
            self.pcts.append(a)

            def one(x):
                x = h.concrete(x) if not isinstance(x, float) else x
                return pct[0] if x == 0.5 else pct[1] if x == 99.5 else float("nan")
            if isinstance(q, (list, tuple)):
                return h.array([one(x) for x in q], "float64")
            return one(q)
        h.patch(h.np, "percentile", percentile)
        h.patch(h.np, "quantile", lambda a, q, **k: percentile(
            a, [x * 100 for x in q] if isinstance(q, (list, tuple)) else q * 100))
        self.audio = h.load("audio")


def steps(h, su, **kw):
    return [h.py(v) for v in su.audio.Audio("in.mp4", **kw).audio_stream()]


def ref_ok(h, out, a, norm, k):
    """Is out the step for sample a, up to rounding at the step's edges?"""
    cs = []
    for s in range(1, 17):
        t = s * 1024 / norm
        cs.append(h.implies(a >= h.f32c(t * (1 + k)), out >= s))
        cs.append(h.implies(a < h.f32c(t * (1 - k)), out < s))
        if s <= 15:
            cs.append(h.implies(a <= h.f32c(-t * (1 + k)), out <= -s))
            cs.append(h.implies(a > h.f32c(-t * (1 - k)), out > -s))
    return h.all(cs)


def s06_quant(h, norm, what):
    """Any two resampled samples, explicit normalization."""
    x, y = h.f32("x"), h.f32("y")
    for v in (x, y):
        h.assume(h.and_(v >= h.f32c(-65536.0), v <= h.f32c(65536.0)))
    su = Setup(h, 1, 44100, [b"\0\0\0\0"], resampled=lambda i: h.array([x, y], "float32"))
    out = steps(h, su, normalization=norm)
    h.claim("one step per sample", len(out) == 2)
    h.claim("steps are in -15..16", h.all([h.and_(o >= -15, o <= 16) for o in out]))
    if what == "monotone":
        h.claim("a louder sample gives no smaller step", h.implies(x <= y, out[0] <= out[1]))
    else:
        h.claim("the step is the scaled sample", ref_ok(h, out[0], x, norm, 2.0 ** -20))
        h.claim("zero stays zero", h.implies(h.eq(x, 0), h.eq(out[0], 0)))


def s06_auto(h, p0, p1):
    """Any sample, automatic normalization from given percentiles."""
    x = h.f32("x")
    h.assume(h.and_(x >= h.f32c(-65536.0), x <= h.f32c(65536.0)))
    su = Setup(h, 2, 44100, [b"\0\0\0\0"], resampled=lambda i: h.array([x], "float32"), pct=(p0, p1))
    out = steps(h, su)
    top = max(abs(p0), abs(p1))
    h.claim("one step per sample", len(out) == 1)
    if top == 0:
        h.claim("silence stays silent", h.implies(h.eq(x, 0), h.eq(out[0], 0)))
        h.claim("steps are in -15..16", h.and_(out[0] >= -15, out[0] <= 16))
    else:
        h.claim("the louder percentile is full scale", ref_ok(h, out[0], x, 16384.0 / top, 2.0 ** -20))


def s06_factor(h, lo0, hi0, lo1, hi1):
    """The automatic factor for any percentiles."""
    h.float_forks()
    p, q = h.f64("p"), h.f64("q")
    h.assume(h.and_(p >= lo0, p <= hi0, q >= lo1, q <= hi1))
    su = Setup(h, 2, 44100, [b"\0\0\0\0"], resampled=lambda i: h.array([0.0], "float32"), pct=(p, q))
    a = su.audio.Audio("in.mp4")
    if not hasattr(a, "normalization"):
        return
    x, y = abs(p), abs(q)
    m = y if h.fork(x < y) else x
    if h.fork(h.eq(m, 0.0)):
        h.claim("silence has a finite factor", h.and_(a.normalization >= 0.0, a.normalization <= 1e300))
        h.cover("silence")
    else:
        h.claim("the factor scales the louder percentile to full scale", h.or_(
            h.eq(a.normalization, 16384. / m),
            h.and_(a.normalization * m >= 16384. * (1 - 2. ** -40), a.normalization * m <= 16384. * (1 + 2. ** -40))))
        h.cover("sound")


def s06_decode(h, channels, frames, nchunks):
    """Any 16-bit samples: channels are separated, samples and chunks keep their order."""
    chunks, vals = [], []
    for c in range(nchunks):
        bs, vs = [], []
        for i in range(frames):
            for ch in range(channels):
                lo, hi = h.u8("lo_%d_%d_%d" % (c, i, ch)), h.u8("hi_%d_%d_%d" % (c, i, ch))
                bs += [lo, hi]
                v = h.py(lo) + 256 * h.py(hi)
                vs.append(h.ite(v >= 32768, v - 65536, v))
        chunks.append(h.bytes(bs))
        vals.append(vs)
    su = Setup(h, channels, 48000, chunks, raw_mono=True,
               resampled=lambda i: h.array([1024.0 * (i + 1), -1024.0 * (i + 1)], "float32"))
    out = steps(h, su, normalization=1.0, bitrate=14700)
    h.claim("all chunks in order", out == [s * (i + 1) for i in range(nchunks) for s in (1, -1)])
    h.claim("one mix per chunk", len(su.mono) == nchunks)
    for c in range(nchunks):
        d = su.mono[c]
        sh = h.shape(d)
        if channels > 1 or len(sh) > 1:
            h.claim("one row per channel", sh == (channels, frames))
        got = h.flat(d)
        h.claim("channel samples", h.all([
            h.eq(got[ch * frames + i], vals[c][i * channels + ch]) for ch in range(channels) for i in range(frames)]))
        h.claim("resampled from the file's rate to the output rate",
                su.log[c][0] == 48000 and su.log[c][1] == 14700)
        mixed = h.flat(su.log[c][2])
        h.claim("what is resampled is the mix", h.and_(len(mixed) == frames, h.all(
            [h.eq(a, b) for a, b in zip(mixed, vals[c][::channels])])))
    h.claim("the file given is read", all(x == "in.mp4" for x in su.opened))


def s06_blocks(h, channels, frames, cuts, auto=False):
    """Any samples, cut into blocks at any of the given byte positions."""
    n = 2 * channels * frames
    raw = [h.u8("raw_%d" % i) for i in range(n)]
    vals = []
    for i in range(0, n, 2):
        v = h.py(raw[i]) + 256 * h.py(raw[i + 1])
        vals.append(h.ite(v >= 32768, v - 65536, v))
    at = [0] + [c for c in cuts if c < n] + [n]
    chunks = [h.bytes(raw[a:b]) for a, b in zip(at, at[1:])]
    su = Setup(h, channels, 48000, chunks, raw_mono=True, pct=(-100.0, 90.0))
    # the mix (here: the first channel) is passed through by the stand-in for resampling
    want = [vals[i * channels] for i in range(frames)]
    if auto:
        a = su.audio.Audio("in.mp4")
        got = [x for p in su.pcts for x in h.flat(p)]
        h.claim("percentiles are those of the whole input", h.and_(len(got) == frames, h.all(
            [h.eq(a, b) for a, b in zip(got, want)])))
        h.claim("percentiles are computed once", len(su.pcts) == 1)
        su.mono, su.log = [], []
    else:
        a = su.audio.Audio("in.mp4", normalization=1.0, bitrate=14700)
        n = len([None for _ in a.audio_stream()])
        h.claim("one step per resampled sample", n == frames)
    for ch in range(channels):
        got = []
        for d in su.mono:
            sh = h.shape(d)
            if len(sh) > 1:
                h.claim("one row per channel", sh[0] == channels)
            f = h.flat(d)
            got += f[ch * (len(f) // channels):(ch + 1) * (len(f) // channels)]
        if not auto:
            h.claim("every sample of the channel, in order", h.and_(len(got) == frames, h.all(
                [h.eq(x, vals[i * channels + ch]) for i, x in enumerate(got)])))
    h.claim("resampled from the file's rate to the output rate", all(x[0] == 48000 and x[1] == 14700 for x in su.log))
    h.cover("blocks")


def s06_configs(tier):
    out = []
    norms = [1.0, 1.7, 0.37, 13.0] if tier == "quick" else [
        1.0, 1.3, 1.7, 2.0, 0.37, 0.9999, 1.0001, 13.0, 2.7182818, 100.0, 0.01, 3.3333, 5000.0, 1e-6]
    for n in norms:
        out.append(("audio_s", "s06_quant", {"norm": n, "what": "monotone"}))
        out.append(("audio_s", "s06_quant", {"norm": n, "what": "step"}))
    ps = [(-20000.0, 12000.0), (-3.0, 5.5), (0.0, 0.0), (-1.25, 0.0), (100.0, 32000.0), (-900.0, -10.0)]
    for p0, p1 in ps if tier == "quick" else ps + [(-32768.0, 32767.0), (-0.001, 0.002), (7.0, 7.0), (-5.0, 5.0)]:
        out.append(("audio_s", "s06_auto", {"p0": p0, "p1": p1}))
    for r in ((-32768.0, 32767.0, -32768.0, 32767.0), (0.0, 100.0, 0.0, 100.0), (-32768.0, 0.0, -100.0, 0.0)):
        out.append(("audio_s", "s06_factor", dict(zip(("lo0", "hi0", "lo1", "hi1"), r))))
    for ch in (1, 2, 3):
        out.append(("audio_s", "s06_decode", {"channels": ch, "frames": 3 if tier == "quick" else 6, "nchunks": 2}))
    for ch, fr, cuts in BLOCKS if tier != "thorough" else BLOCKS + MORE_BLOCKS:
        out.append(("audio_s", "s06_blocks", {"channels": ch, "frames": fr, "cuts": cuts}))
    for ch, fr, cuts in ((2, 4, [4, 8]), (6, 4, [16, 32]), (3, 5, [6, 12])):
        out.append(("audio_s", "s06_blocks", {"channels": ch, "frames": fr, "cuts": cuts, "auto": True}))
    return out


# channels, frames, byte positions at which the input is cut into blocks
BLOCKS = [(1, 5, [2, 4]), (2, 4, [4, 12]), (2, 4, [6]), (2, 4, [1, 2, 3, 7]), (3, 5, [16]), (6, 4, [16, 32]), (6, 3, [8, 16, 24, 32]),
          (6, 3, [2, 4, 12, 30])]
MORE_BLOCKS = [(c, 4, [k]) for c in (2, 3, 4, 5, 6, 8) for k in range(1, 8 * c)]

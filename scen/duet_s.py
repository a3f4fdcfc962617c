"""The transcoder's byte stream played by the player (X02)."""
from .movie_s import movie, Fakes
from .player_s import a2io, boot, expected, reference_offset, toggles, prepare  # noqa


def receive(h, io, data, pattern):
    """Feed the byte stream through the chip's 8K receive buffer.

    pattern: sizes reported at the polls before there is enough data."""
    st = {"rd": 0, "acked": 0, "short": [], "known": 0}
    base = io.fresh

    def sync():
        while st["acked"] < len(io.commands):
            c, regs = io.commands[st["acked"]]
            st["acked"] += 1
            if h.concrete(c) == 0x40:
                new = h.concrete(regs.get(0x428, 0)) << 8 | h.concrete(regs.get(0x429, 0))
                st["rd"] += (new - st["rd"]) & 0xffff
                st["short"] = list(pattern)
                st["known"] = 0

    def fresh(name, lo=0, hi=255):
        sync()
        if name == "size":
            there = min(8192, len(data) - st["rd"])
            v = min(st["short"].pop(0), there) if st["short"] else there
            st["known"] = max(st["known"], v)
            return v
        if name == "status":
            last = [h.concrete(c) for c, _ in io.commands if h.concrete(c) != 0x40]
            return 0x13 if last and last[-1] == 1 else 0x17
        if name == "key":
            return 0
        return base(name, lo, hi)
    io.fresh = fresh

    def rx(a):
        sync()
        a = h.concrete(a)
        h.claim("the stream is read at a known place", a is not None)
        k = (a - st["rd"]) % 8192
        h.claim("only received bytes are read", k < st["known"])
        i = st["rd"] + k
        return data[i] if i < len(data) else 0
    io.rx = rx
    st["short"] = list(pattern)


def x02(h, dhgr, ticks, pattern, seed=0):
    m = movie(h, dhgr, Fakes())
    oc, vm = h.load("opcodes"), h.load("video_mode")
    ops, want = [], []
    for i in range(ticks):
        d, p = 4 + 2 * ((i * 7 + seed) % 32), 32 + (i * 5 + i // 32 + seed) % 32
        c = h.u8("c%d" % i)
        offs = [(i * 13 + 41 * k + seed) & 255 for k in range(4)]
        if i % 5 == 0:
            offs[2:] = [offs[0]] * 2
        if i in (0, 3, 150, 290, 291, 292, ticks - 1):
            offs = [h.u8("o%d.%d" % (i, j)) for j in range(4)]
        ops.append(oc.TICK_OPCODES[(d, p)](c, offs))
        want.append((d, p, h.py(c), [h.py(o) for o in offs]))
    hdr = oc.Header(mode=vm.VideoMode.DHGR if dhgr else vm.VideoMode.HGR)
    data = [h.py(b) for b in m.emit_stream(iter([hdr] + ops))]
    first = reference_offset(h)
    mc, io, clears, limit = boot(h)
    receive(h, io, data, pattern)
    mc.run(limit=limit)
    h.claim("playback starts", mc.stop == "dispatch")
    banks = {True: {}, False: {}}
    bank = False
    k, pos = 0, 7
    acks = 0
    while True:
        if mc.stop != "dispatch":
            return
        t = h.concrete(mc.target)
        h.claim("the next opcode is known", t is not None)
        mc.pc = t
        c0, w0, a0, r0 = mc.cyc, len(mc.wlog), len(io.accesses), len(io.commands)
        mc.steps = 0
        mc.run(stops=(0xbf00,), limit=1500)
        at = [c - c0 for c, _, a, _ in io.accesses[a0:] if isinstance(a, int) and a & 0xfff0 == 0xc030]
        scr = [(a, v) for a, v, _ in mc.wlog[w0:] if not isinstance(a, int) or 0x2000 <= a <= 0x3fff]
        if pos % 2048 == 2044:
            h.claim("the frame ends with an ACK that stores nothing", not scr and len(io.commands) == r0 + 1)
            h.claim("the next frame follows", mc.stop == "dispatch")
            if not pattern:
                h.claim("a whole number of opcode periods", (mc.cyc - c0) % 73 == 0)
            bank = not bank if dhgr else False
            pos += 4
            acks += 1
            sw = io.sw
            h.claim("ACK %d selects the bank" % acks, sw["page2"] == (1 if bank else 0))
            continue
        if k == ticks:
            break
        d, p, c, offs = want[k]
        k += 1
        pos += 7
        h.claim("tick %d goes on" % k, mc.stop == "dispatch")
        h.claim("tick %d stores its content at its offsets in its page" % k, h.and_(
            h.all([h.eq(v, c) for _, v in scr]),
            h.all([h.any([h.eq(a, p << 8 | o) for o in offs]) for a, _ in scr]),
            h.all([h.any([h.eq(a, p << 8 | o) for a, _ in scr]) for o in offs])))
        h.claim("tick %d sounds its sample" % k, mc.cyc - c0 == 73 and at == [first, first + expected(d)])
        sw = io.sw
        h.claim("tick %d stores to the bank it was computed for" % k,
                bool(sw["80store"] and sw["hires"] and sw["page2"]) == bank and (bank or not sw["page2"]))
    h.claim("playback ends with the stream", mc.stop in ("loop", "at") and len(io.commands) == r0)
    h.claim("nothing is stored or sounded at the end", not scr and not at)
    h.claim("number of ACKs", acks == (7 + 7 * ticks + 4 * acks) // 2048)
    h.claim("the display is as the header says", (io.sw["text"], io.sw["hires"], io.sw["dhires"], io.sw["80col"]) == (
        (0, 1, 1, 1) if dhgr else (0, 1, 0, 0)))
    h.cover("reached")


def x02_configs(tier):
    n = 1300 if tier == "quick" else 12000
    return [("duet_s", "x02", {"dhgr": d, "ticks": t, "pattern": p, "seed": s}) for d, t, p, s in (
        (True, n, [], 0), (False, n, [], 5), (True, 291, [0, 2047], 1), (False, 292, [6], 2), (True, 583, [2047], 3))]

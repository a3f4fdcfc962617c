"""Scenarios for the 6502 player (P01-P07): the machine code assembled from /repo's source is executed
symbolically."""
import io as _io
import sys

DUTIES = list(range(4, 68, 2))
PAGES = list(range(32, 64))
EXCEPT = {22: 21, 40: 39}
JMPS = {}


def expected(n):
    return EXCEPT.get(n, n)


def a2io(h, **k):
    from symx import a2io as m
    return m.IO(h, **k)


def toggles(io):
    from symx import a2io as m
    return m.toggles(io)


class Concrete:
    """A host of plain numbers, to find out which bytes of the player modify themselves."""

    def __init__(self, seed):
        self.seed = seed
        self.k = 0

    def int(self, name, lo, hi):
        self.k += 1
        v = lo + (self.seed * 7919 + self.k * 104729) % (hi - lo + 1)
        return 0 if name.startswith("key") else v

    def fn8(self, name, bits):
        return lambda a: (a * 31 + self.seed * 17 + 0x41) & 0xff

    def concrete(self, v):
        return v

    def fork(self, c):
        return bool(c)

    def forkint(self, v):
        return v

    def eq(self, a, b):
        return a == b

    def ite(self, c, a, b):
        return a if c else b

    def not_(self, x):
        return not x

    def and_(self, *x):
        return all(x)


def stale_bytes(h):
    """Image addresses that opcodes write: their content between opcodes is arbitrary.

    Found by running every opcode on sample streams; that nothing else is written, whatever the stream,
    is then claimed by the symbolic runs."""
    key = id(h.player())
    if key in JMPS:
        return JMPS[key]
    from symx import m6502
    pl = h.player()
    out = set()
    for name, a in pl.labels.items():
        if not (name.startswith("op_tick_") or name in ("op_ack", "op_nop")):
            continue
        for seed in (1, 2):
            c = Concrete(seed)
            io = a2io(c, ptr=0x6000 + 9, regs={0x428: 0, 0x429: 0})
            m = m6502.Machine(c, pl.image, io, a, 0x12, 0, 0x34)
            try:
                m.run(limit=200)
            except Exception:
                pass
            for wa, _, _ in m.wlog:
                if wa in pl.image and not 0x2000 <= wa <= 0x3fff:
                    out.add(wa)
    JMPS[key] = out
    return out


def prepare():
    from symx import player as pl

    class H:
        player = staticmethod(pl.prepare)
    stale_bytes(H)


def start(h, pc, ptr=None, y=None, io=None, **k):
    """The machine at the entry of an opcode after any history: X = 0, anything else arbitrary."""
    if io is None:
        if ptr is None:
            ptr = 0x6000 | h.int("pos", 0, 8191)
        io = a2io(h, ptr=ptr)
    m = h.machine(h.player().image, io, pc, h.int("A", 0, 255), k.pop("x", 0),
                  h.int("Y", 0, 255) if y is None else y, c=h.int("C", 0, 1), stale=stale_bytes(h), **k)
    return m


def label(h, name):
    a = h.player().labels.get(name)
    h.claim("the player has the routine", a is not None)
    return a


def addr_in(h, a, lo, hi):
    if isinstance(a, int):
        return lo <= a <= hi
    return h.and_(a >= lo, a <= hi)


def harmless(h, m, own):
    """No write to anything but the opcode's own jump operand, the dummies and (checked apart) the screen."""
    cs = []
    for a, v, _ in m.wlog:
        if isinstance(a, int):
            ok = (a in own and a in m.stale) or 0x2000 <= a <= 0x3fff or (a <= 0xff and a not in m.zp_used) or \
                (a >= 0xd000)
            cs.append(ok)
        else:
            cs.append(addr_in(h, a, 0x2000, 0x3fff))
    return h.all(cs)


def tick_run(h, pc, page):
    m = start(h, pc)
    m.zp_used = set()
    ptr = m.io.ptr
    s = [m.io.rx((ptr + i) & 0x1fff) for i in range(7)]
    m.run(limit=200)
    return m, s, ptr


def timing_claims(h, m, n, first, tag=""):
    io = m.io
    t = toggles(io)
    h.claim(tag + "the opcode ends by jumping to the next one", m.stop == "dispatch")
    h.claim(tag + "73 cycles", m.cyc == 73)
    h.claim(tag + "two toggles", len(t) == 2)
    h.claim(tag + "the first toggle comes at the same offset in every opcode", bool(t) and t[0] == first)
    h.claim(tag + "the second toggle comes after the duty cycle", len(t) == 2 and t[1] - t[0] == expected(n))
    h.claim(tag + "X is 0 for the next opcode", h.eq(m.x, 0))
    h.claim(tag + "decimal mode stays off", m.d == 0)


def own_operand(m):
    return set() if m.jump_at is None else {m.jump_at + 1, m.jump_at + 2}


def data_claims(h, m, s, ptr, page, tag=""):
    io = m.io
    h.claim(tag + "the opcode ends by jumping to the next one", m.stop == "dispatch")
    h.claim(tag + "seven stream bytes are consumed", h.eq(io.ptr, 0x6000 | ((ptr + 7) & 0x1fff)))
    h.claim(tag + "the next opcode is the one in the stream",
            m.target is not None and h.eq(m.target, (s[5] << 8) | s[6]))
    scr = [(a, v) for a, v, _ in m.wlog if not isinstance(a, int) or 0x2000 <= a <= 0x3fff]
    want = [(page << 8) | x for x in s[1:5]]
    h.claim(tag + "the content byte is stored at each offset", h.all(
        [h.any([h.and_(h.eq(a, w), h.eq(v, s[0])) for a, v in scr]) for w in want]))
    h.claim(tag + "no other byte of the screen is changed", h.all(
        [h.and_(h.any([h.eq(a, w) for w in want]), h.eq(v, s[0])) for a, v in scr]))
    h.claim(tag + "no memory is changed that the player or the display reads", harmless(h, m, own_operand(m)))
    h.claim(tag + "only the speaker and the stream are touched", all(
        isinstance(a, int) and (a & 0xfff0 == 0xc030 or a == 0xc097) for _, _, a, _ in io.accesses))
    h.claim(tag + "only stream bytes are read", not io.commands and not io.resets and h.all(
        [h.and_(k == "r", h.eq(a, 0x6000 | ((ptr + i) & 0x1fff))) for i, (_, k, a, _) in enumerate(io.chip)]))
    h.claim(tag + "the code is outside the screen", all(not 0x2000 <= a <= 0x5fff or a >= 0x4000 for a in m.executed))
    h.claim(tag + "the stack is left alone", m.sp == 0xff)


def reference_offset(h):
    m, s, ptr = tick_run(h, h.player().labels["op_tick_4_page_32"], 32)
    t = toggles(m.io)
    return t[0] if t else None


def p01_ticks(h, page):
    h.world()
    first = reference_offset(h)
    for n in DUTIES:
        pc = label(h, "op_tick_%d_page_%d" % (n, page))
        m, s, ptr = tick_run(h, pc, page)
        timing_claims(h, m, n, first)
    h.cover("reached")


def p02_ticks(h, page):
    h.world()
    for n in DUTIES:
        pc = label(h, "op_tick_%d_page_%d" % (n, page))
        m, s, ptr = tick_run(h, pc, page)
        data_claims(h, m, s, ptr, page)
    h.cover("reached")


# -- ACK and the wait between frames

def ack_start(h):
    """At the ACK opcode: two bytes of the 2K frame are left."""
    k = h.int("frame", 0, 31)
    rd = k << 11                            # receive read pointer
    off = rd & 0x1fff
    io = a2io(h, ptr=0x6000 | (off + 0x7fe), regs={0x428: rd >> 8, 0x429: rd & 0xff})
    m = start(h, label(h, "op_ack"), io=io)
    m.zp_used = set()
    b = io.rx(off + 0x7fe)
    for lo, hi in ((0x00, 0x0f), (0x10, 0x1f), (0x30, 0x3f), (0x90, 0x9f)):
        h.assume(h.not_(h.and_(b >= lo, b <= hi)))
    return m, b, rd, off


def stays_fed(io):
    """Enough data at every poll."""
    return io.polls


def p03_ack(h):
    """ACK, the wait for data and the dispatch of the next frame's first opcode."""
    h.world()
    m, b, rd, off = ack_start(h)
    io = m.io
    nxt = (rd + 0x800) & 0xffff
    start_of_next = 0x6000 | (nxt & 0x1fff)
    s = [io.rx((nxt + i) & 0x1fff) for i in range(2)]
    m.run(limit=150)
    ready = len(io.polls) > 0 and h.all([p >= 2048 for p in io.polls])
    ready = h.fork(ready)
    nokey = io.key == 0 and io.keys == 0 and not any(e[0] == "strobe" for e in io.log)
    if m.stop == "loop":
        h.claim("waits only without data or while paused", not ready or not nokey)
        return
    h.claim("the next opcode is dispatched", m.stop == "dispatch")
    h.claim("the next opcode is the one after the frame",
            m.target is not None and h.eq(m.target, (s[0] << 8) | s[1]))
    h.claim("the stream continues after the frame", h.eq(io.ptr, 0x6000 | ((nxt + 2) & 0x1fff)))
    h.claim("X is 0 for the next opcode", h.eq(m.x, 0))
    h.claim("decimal mode stays off", m.d == 0)
    sw = [(k, a) for _, k, a, _ in io.accesses
          if not isinstance(a, int) or not (a & 0xfff0 == 0xc030 or 0xc094 <= a <= 0xc097 or a in (0xc000, 0xc010))]
    h.claim("the soft switch named in the stream is touched",
            len(sw) >= 1 and h.all([h.eq(a, 0xc000 + b) for k, a in sw]))
    # the W5100: read pointer moved by 2K, then one RECV
    h.claim("one RECV command", len(io.commands) == 1 and h.eq(io.commands[0][0], 0x40))
    if len(io.commands) == 1:
        r = io.commands[0][1]
        h.claim("the read pointer has advanced by 2048 when RECV is issued", h.and_(
            h.eq(r.get(0x428, -1), nxt >> 8), h.eq(r.get(0x429, -1), nxt & 0xff)))
    h.claim("the read pointer stays there", h.and_(
        h.eq(io.regs[0x428], nxt >> 8), h.eq(io.regs[0x429], nxt & 0xff)))
    h.claim("no other register of the chip is written", all(
        isinstance(a, int) and a in (0x428, 0x429, 0x401) for _, k, a, _ in io.chip if k == "w"))
    h.claim("the rest of the frame is consumed", h.all([h.any([h.eq(a, 0x6000 | (off + 0x7fe)) for _, k, a, _ in io.chip if k == "r"])]))
    h.claim("the screen is left alone", all(
        isinstance(a, int) and not 0x2000 <= a <= 0x5fff or a in m.stale for a, _, _ in m.wlog))
    h.claim("no memory is changed that the player or the display reads", h.all(
        [isinstance(a, int) and (a in m.stale or a <= 0xff or a >= 0xd000) for a, _, _ in m.wlog]))
    h.claim("the stack is left alone", m.sp == 0xff)
    if ready and nokey:
        t = toggles(io)
        first = reference_offset(h)
        h.claim("a whole number of opcode periods", m.cyc % 73 == 0)
        h.claim("the first toggle comes at the same offset in every opcode", bool(t) and t[0] == first)
        h.claim("the speaker plays the level of a silent sample", len(t) == 2 * (m.cyc // 73) and all(
            t[2 * i] == first + 73 * i and t[2 * i + 1] - t[2 * i] == 34 for i in range(len(t) // 2)))
        h.cover("no wait")
    elif not ready:
        h.cover("waited")
    else:
        h.cover("paused")


def p05_wait(h, first):
    """The wait before a frame, from the first frame (after the header) or later ones."""
    h.world()
    if first:
        ptr, x, y = 0x0401, 7, 0x60
    else:
        ptr, x, y = 0x0402, 0, 0x60 | (h.int("frame", 0, 3) << 3)
    rd = h.int("rd", 0, 31) << 3
    io = a2io(h, ptr=0x0400 | h.int("low", 0, 255), regs={0x428: rd, 0x429: 0})
    m = start(h, label(h, "checkrecv"), io=io, x=x, y=y)
    m.zp_used = set()
    pos = ((y & 0x1f) << 8) | x
    s = [io.rx((pos + i) & 0x1fff) for i in range(2)]
    npoll = []
    m.run(limit=160)
    h.claim("nothing is read before the first poll", len(io.polls) > 0)
    if not io.polls:
        return
    last = io.polls[-1]
    dispatched = m.stop == "dispatch"
    h.claim("dispatches or waits", m.stop in ("dispatch", "loop"))
    h.claim("keeps waiting while there is less than 2K", h.all([p < 2048 for p in io.polls[:-1]]))
    i = [j for j, e in enumerate(io.log) if e[0] == "poll"]
    paused = any(e[0] == "strobe" for e in io.log)
    if m.stop == "loop" and not paused:
        h.claim("starts when there is 2K", last < 2048)
        h.cover("waits")
    else:
        h.claim("a frame starts only with 2K received", last >= 2048)
    h.claim("the receive pointer is left alone", h.and_(
        h.eq(io.regs[0x428], rd), h.eq(io.regs[0x429], 0)))
    h.claim("no command or register is written", not io.commands and not any(k == "w" for _, k, a, _ in io.chip))
    h.claim("the screen is left alone", all(
        isinstance(a, int) and not 0x2000 <= a <= 0x3fff for a, _, _ in m.wlog))
    h.claim("no memory is changed that the player or the display reads", h.all(
        [isinstance(a, int) and (a in m.stale or a <= 0xff or a >= 0xd000) for a, _, _ in m.wlog]))
    h.claim("no display switch is touched", all(
        isinstance(a, int) and (a & 0xfff0 == 0xc030 or 0xc094 <= a <= 0xc097 or a in (0xc000, 0xc010))
        for _, k, a, _ in io.accesses))
    # stream bytes are only read for the dispatch
    rxr = [a for _, k, a, _ in io.chip if not isinstance(a, int) or 0x6000 <= a <= 0x7fff]
    if dispatched:
        h.claim("the next opcode is the one at the stream position",
                h.and_(h.eq(m.target, (s[0] << 8) | s[1]), len(rxr) == 2))
        h.claim("the stream continues there", h.eq(io.ptr, 0x6000 | ((pos + 2) & 0x1fff)))
        h.claim("X is 0 for the next opcode", h.eq(m.x, 0))
        h.claim("a pause takes exactly two key presses", io.keys == (2 if paused else 0) and io.key == 0)
        h.cover("paused and resumed" if paused else "starts")
    else:
        h.claim("no stream byte is consumed while waiting", not rxr)
        if paused:
            h.claim("paused by a key and waiting for another", io.keys == 1)
            h.cover("paused")
    h.claim("the stack is left alone", m.sp == 0xff)


# -- start-up

def rom_stubs(m, clears):
    def clear(m):
        h = m.h
        sw = m.io.sw
        page = m.peek(0xe6)
        page = h.concrete(page)
        bank = "aux" if sw["80store"] and sw["hires"] and sw["page2"] else "main"
        clears.append((bank, page, sw["text"]))
        m.io.log.append(("clear", bank, page))
        if page is None or not page & 0x20 == 0x20:
            return
        if bank == "main":
            for a in range(page << 8, (page << 8) + 0x2000):
                m.mem[a] = 0
        m.a, m.x, m.y = [h.int("%s_after_clear_%d" % (r, len(clears)), 0, 255) for r in "AXY"]
        m.c = h.int("C_after_clear_%d" % len(clears), 0, 1)
        m.nz(m.a)

    def hgr0(m):
        clear(m)
        m.rts()

    def hgr(m):
        for k, v in (("page2", 0), ("mixed", 1), ("hires", 1), ("text", 0)):
            m.io.sw[k] = v
            m.io.log.append(("switch", k, v))
        m.poke(0xe6, 0x20, m.cyc)
        clear(m)
        m.rts()

    def cout(m):
        m.text.append(m.a)
        m.rts()
    m.rom.update({0xf3f2: hgr0, 0xf3e2: hgr, 0xfded: cout})


def boot(h, limit=6000):
    io = a2io(h, mode=0, ptr=h.int("ptr0", 0, 0x7fff))
    m = h.machine(h.player().image, io, 0x800, h.int("A", 0, 255), h.int("X", 0, 255), h.int("Y", 0, 255),
                  c=h.int("C", 0, 1))
    m.zp_used = set()
    clears = []
    rom_stubs(m, clears)
    return m, io, clears, limit


CFG = {"MAC": (0x09, 6), "SRCADDR": (0x0f, 4), "FADDR": (0x40c, 4), "FPORT": (0x410, 2)}


def server_port(h):
    """The port the server listens on by default."""
    try:
        return h.load("server").parser.parse_args(["video.a2m"]).port
    except AttributeError:
        return None


def attempts(log):
    """Split the log at the chip resets."""
    out = []
    for e in log:
        if e[0] == "reset":
            out.append([])
        elif out:
            out[-1].append(e)
    return out


def p04_boot(h, refusals):
    """From the entry point to the first opcode, the connection being refused a number of times."""
    h.world(dirs=("server",))
    pl = h.player()
    m, io, clears, limit = boot(h)
    # the socket opens every time; it is refused the given number of times, then not
    base_fresh = io.fresh
    state = {"phase": None, "refused": 0}

    def fresh(name, lo=0, hi=255):
        v = base_fresh(name, lo, hi)
        if name == "status":
            last = [e for e in io.log if e[0] == "command"]
            cmd = h.concrete(last[-1][1]) if last else None
            n = len([e for e in io.log if e[0] == "command" and h.concrete(e[1]) == 4])
            if cmd == 1:
                h.assume(h.eq(v, 0x13))
            elif cmd == 4 and n <= refusals:
                h.assume(h.eq(v, 0))
            elif cmd == 4:
                h.assume(h.not_(h.eq(v, 0)))
        return v
    io.fresh = fresh
    m.run(limit=limit)
    snaps = [(c, r) for c, r in io.commands]
    opens = [r for c, r in snaps if h.concrete(c) == 1]
    connects = [r for c, r in snaps if h.concrete(c) == 4]
    h.claim("only OPEN and CONNECT are issued", len(opens) + len(connects) == len(snaps))
    att = attempts(io.log)
    h.claim("the chip is reset before every attempt",
            len(att) == len(opens) and all([h.concrete(e[1]) for e in a if e[0] == "command"] in ([1], [1, 4]) for a in att))
    for r in opens + connects:
        configured(h, pl, r)
    h.claim("an accepted connection is tried no more often than needed", len(connects) <= refusals + 1)
    h.claim("the number of retries is bounded", len(connects) <= 10)
    if m.stop == "brk":
        h.claim("gives up only when refused several times", 2 <= len(connects) <= min(refusals, 10))
        h.claim("gives up with a message", len(m.text) >= 8)
        h.claim("the screen was not switched to graphics", io.sw["text"] == 1)
        h.cover("gave up")
        return
    if m.stop == "loop":
        # waiting for the connection or for data
        h.claim("the screen was not switched to graphics while waiting", io.sw["text"] == 1 or len(clears) > 0)
        h.claim("a refused connection is not waited for or retried forever", h.not_(h.eq(io.statuses[-1], 0)))
        est = h.any([h.eq(v, 0x17) for v in io.statuses])
        if h.fork(est):
            h.claim("waits only for data", len(io.polls) > 0)
            h.claim("waits only while there is too little data or while paused",
                    h.or_(io.polls[-1] < 2048, io.keys == 1))
        h.cover("waited")
        return
    h.claim("playback starts", m.stop == "dispatch")
    if m.stop != "dispatch":
        return
    h.claim("the connection is established", h.eq(io.statuses[-1], 0x17))
    h.claim("enough data has arrived before the first opcode", io.polls[-1] >= 2048)
    h.claim("the header was there before it was read", io.polls[0] >= 7 if len(io.polls) == 2 else
            h.any([p >= 7 for p in io.polls[:-1]]))
    s = [io.rx(i) for i in range(9)]
    dhgr = h.fork(h.not_(h.eq(s[6], 0)))
    h.claim("the first opcode is at bytes 7 and 8 of the stream", h.eq(m.target, (s[7] << 8) | s[8]))
    h.claim("the stream continues after it", h.eq(io.ptr, 0x6009))
    h.claim("X is 0 for the first opcode", h.eq(m.x, 0))
    h.claim("decimal mode stays off", m.d == 0)
    h.claim("the chip auto-increments its address", io.mode == 3)
    # the display
    sw = io.sw
    h.claim("hi-res graphics, full screen, page 1", (sw["text"], sw["mixed"], sw["hires"], sw["page2"]) == (0, 0, 1, 0))
    h.claim("double hi-res exactly when the header says so",
            (sw["dhires"], sw["80col"], sw["80store"]) == ((1, 1, 1) if dhgr else (0, 0, 0)))
    on = [i for i, e in enumerate(io.log) if e[0] == "switch" and e[1:] == ("text", 0)]
    before = io.log[:on[0]] if on else []
    h.claim("the main screen is cleared before graphics are shown", ("clear", "main", 0x20) in before)
    if dhgr:
        h.claim("the auxiliary screen is cleared before graphics are shown", ("clear", "aux", 0x20) in before)
        h.cover("DHGR")
    else:
        h.cover("HGR")
    ci = max([i for i, e in enumerate(m.wlog) if isinstance(e[0], int) and 0x2000 <= e[0] <= 0x3fff], default=-1)
    h.claim("nothing is drawn before the first opcode", ci == -1)
    # what the decode loop relies on
    h.claim("the player's code is intact", all(
        isinstance(a, int) and (not 0x800 <= a <= 0xbfff or a in stale_bytes(h)) for a, _, _ in m.wlog))
    ex = [pl.labels.get("exit")]
    vec = (m.peek(0x3f2), m.peek(0x3f3), m.peek(0x3f4))
    h.claim("the reset vector is valid", h.eq(vec[2], vec[1] ^ 0xa5))
    h.cover("played")


def configured(h, pl, r):
    for name, (reg, n) in CFG.items():
        a = pl.labels.get(name)
        if a is None:
            continue
        h.claim("%s is programmed" % name, h.all([h.eq(r.get(reg + i, 0), pl.image[a + i]) for i in range(n)]))
    port = server_port(h)
    if port is not None:
        h.claim("the port is the server's", h.eq((r.get(0x410, 0) << 8) + r.get(0x411, 0), port))
    h.claim("addresses are programmed", h.all([h.any([h.not_(h.eq(r.get(b + i, 0), 0)) for i in range(n)])
                                               for b, n in ((0x09, 6), (0x0f, 4), (0x40c, 4), (0x404, 2))]))
    h.claim("8K buffers for socket 0", h.and_(h.eq(r.get(0x1a, 0x55), 3), h.eq(r.get(0x1b, 0x55), 3)))
    h.claim("TCP mode", h.eq(r.get(0x400, 0) & 0x8f, 1))


def p04_open(h):
    """The socket does not open."""
    h.world()
    m, io, clears, limit = boot(h)
    base_fresh = io.fresh

    def fresh(name, lo=0, hi=255):
        v = base_fresh(name, lo, hi)
        if name == "status":
            h.assume(h.not_(h.eq(v, 0x13)))
        return v
    io.fresh = fresh
    m.run(limit=limit)
    h.claim("stops with a message when the socket does not open", m.stop == "brk" and len(m.text) >= 8)
    h.claim("no connection is tried", all(h.concrete(c) == 1 for c, _ in io.commands))
    h.claim("the screen was not switched to graphics", io.sw["text"] == 1)
    h.cover("not opened")


# -- the end

def quit_claims(h, m, io, key):
    """Stopped at the MLI entry."""
    h.claim("quits through ProDOS", m.stop == "at" and m.pc == 0xbf00)
    if m.stop != "at":
        return
    sp = m.sp
    lo, hi = m.peek(0x100 + ((sp + 1) & 0xff)), m.peek(0x100 + ((sp + 2) & 0xff))
    ret = h.concrete(lo | hi << 8)
    h.claim("QUIT call", h.eq(m.peek(ret + 1), 0x65))
    pt = h.concrete(m.peek(ret + 2) | (m.peek(ret + 3) << 8))
    h.claim("the call has a parameter table", pt is not None)
    if pt is None:
        return
    h.claim("well-formed parameters", h.all([h.eq(m.peek(pt + i), 4 if i == 0 else 0) for i in range(7)]))
    h.claim("the parameters are not in screen memory", not 0x2000 <= pt <= 0x3fff)
    h.claim("the screen is left alone", all(isinstance(a, int) and not 0x2000 <= a <= 0x5fff for a, _, _ in m.wlog))
    h.claim("the code is outside the screen", all(not 0x2000 <= a <= 0x3fff for a in m.executed))


def p07_terminate(h):
    h.world()
    m = start(h, label(h, "op_terminate"))
    io = m.io
    m.zp_used = set()
    key0 = h.int("key before", 0, 1)
    io.key = h.forkint(key0)
    m.run(stops=(0xbf00,), limit=100)
    h.claim("neither the speaker nor the stream is touched", all(
        isinstance(a, int) and a in (0xc000, 0xc010) for _, _, a, _ in io.accesses))
    h.claim("the chip is left alone", not io.chip and not io.resets)
    if m.stop == "loop":
        h.claim("waits only without a key", io.key == 0)
        h.claim("nothing is written while waiting", not m.wlog)
        h.cover("waits")
        return
    h.claim("waits for a key pressed after the end", io.keys == 1 + io_key0(h, key0))
    h.claim("the keyboard strobe is cleared", io.key == 0)
    quit_claims(h, m, io, None)
    h.cover("quits")


def io_key0(h, k):
    return h.forkint(k)


def p07_reset(h):
    """The handler that start-up installs, entered from any state during playback."""
    h.world()
    m, io, clears, limit = boot(h)
    base_fresh = io.fresh

    def fresh(name, lo=0, hi=255):
        v = base_fresh(name, lo, hi)
        if name == "status":
            last = [e for e in io.log if e[0] == "command"]
            h.assume(h.eq(v, 0x13 if last and h.concrete(last[-1][1]) == 1 else 0x17))
        if name == "size":
            h.assume(v >= 2048)
        if name == "key":
            h.assume(h.eq(v, 0))
        return v
    io.fresh = fresh
    m.run(limit=limit)
    h.claim("playback starts", m.stop == "dispatch")
    vec = h.concrete(m.peek(0x3f2) | (m.peek(0x3f3) << 8))
    h.claim("a reset handler is installed", vec is not None)
    h.claim("the reset vector is valid", h.eq(m.peek(0x3f4), m.peek(0x3f3) ^ 0xa5))
    io2 = a2io(h, ptr=h.int("ptr at reset", 0, 0x7fff))
    # the screen (and with it the start-up code) holds video by now
    stale = set(stale_bytes(h)) | set(range(0x2000, 0x4000))
    n = h.machine(h.player().image, io2, vec, h.int("A at reset", 0, 255), h.int("X at reset", 0, 255),
                  h.int("Y at reset", 0, 255), sp=h.forkint(h.int("SP at reset", 0xf0, 0xff)) if False else 0xf3,
                  c=h.int("C at reset", 0, 1), stale=stale)
    n.mem[0x3f4] = m.peek(0x3f4)
    n.mem[0x3f3] = m.peek(0x3f3)
    n.run(stops=(0xbf00,), limit=100)
    quit_claims(h, n, io2, None)
    h.claim("the warm start is disabled", h.not_(h.eq(n.peek(0x3f4), n.peek(0x3f3) ^ 0xa5)))
    h.cover("reset")


# -- the addresses the transcoder emits

def emitted(h):
    """First two bytes of every command of the transcoder (run on the real code)."""
    from .movie_s import stubs
    h.world(stubs=stubs(h))
    oc = h.load("opcodes")
    mc = h.load("machine")
    st = mc.Machine()

    def start_of(op):
        b = [h.concrete(h.py(x)) for x in list(st.emit(op))[:2]]
        return b[0] << 8 | b[1]
    out = {}
    for t in DUTIES:
        for p in PAGES:
            out[(t, p)] = start_of(oc.TICK_OPCODES[(t, p)](0, (0, 0, 0, 0)))
    out["ack"] = start_of(oc.Ack(False))
    out["terminate"] = start_of(oc.Terminate())
    out["nop"] = start_of(oc.Nop())
    return out


def p06_ticks(h, page):
    """The routine at the address the transcoder emits is that of the duty cycle and page."""
    at = emitted(h)
    first = reference_offset(h)
    for n in DUTIES:
        m, s, ptr = tick_run(h, at[(n, page)], page)
        t = toggles(m.io)
        h.claim("the routine has the duty cycle", m.stop == "dispatch" and m.cyc == 73 and len(t) == 2 and
                t[0] == first and t[1] - t[0] == expected(n))
        data_claims(h, m, s, ptr, page)
    h.cover("reached")


def p06_rest(h):
    at = emitted(h)
    vals = sorted(at.values())
    h.claim("all addresses are distinct", all(x != y for x, y in zip(vals, vals[1:])))
    h.claim("none is in screen memory", all(not 0x2000 <= v <= 0x3fff for v in vals))
    h.claim("all are in the player", all(v in h.player().image for v in vals))
    for k, name in (("ack", "op_ack"), ("terminate", "op_terminate"), ("nop", "op_nop")):
        h.claim("%s is the player's routine" % k, at[k] == h.player().labels.get(name))
    # NOP: consumes its two bytes and goes on
    m = start(h, at["nop"])
    m.zp_used = set()
    ptr = m.io.ptr
    s = [m.io.rx((ptr + i) & 0x1fff) for i in range(2)]
    m.run(limit=100)
    h.claim("NOP consumes two bytes and dispatches", m.stop == "dispatch" and h.and_(
        h.eq(m.target, (s[0] << 8) | s[1]), h.eq(m.io.ptr, 0x6000 | ((ptr + 2) & 0x1fff)), h.eq(m.x, 0)))
    h.claim("NOP changes nothing", harmless(h, m, own_operand(m)))
    h.claim("NOP is silent", not toggles(m.io))
    # TERMINATE: leaves the stream
    m = start(h, at["terminate"])
    m.zp_used = set()
    m.run(stops=(0xbf00,), limit=100)
    h.claim("TERMINATE stops playback", m.stop in ("at", "loop") and not m.io.chip and not toggles(m.io))
    # ACK: releases 2K
    m, b, rd, off = ack_start(h)
    m2 = m
    m2.pc = at["ack"]
    m2.run(stops=(h.player().labels.get("checkrecv"),), limit=100)
    h.claim("ACK releases 2K", len(m2.io.commands) == 1 and h.and_(
        h.eq(m2.io.commands[0][0], 0x40), h.eq(m2.io.regs[0x428], ((rd + 0x800) & 0xffff) >> 8)))
    h.cover("reached")


def per_page(fn):
    def configs(tier):
        return [("player_s", fn, {"page": p}) for p in PAGES]
    return configs


p01_configs = per_page("p01_ticks")
p02_configs = per_page("p02_ticks")


def p03_configs(tier):
    return [("player_s", "p03_ack", {})]


def p04_configs(tier):
    return [("player_s", "p04_boot", {"refusals": r}) for r in list(range(0, 8)) + [14]] + [
        ("player_s", "p04_open", {})]


def p05_configs(tier):
    return [("player_s", "p05_wait", {"first": f}) for f in (0, 1)]


def p06_configs(tier):
    return [("player_s", "p06_ticks", {"page": p}) for p in PAGES] + [("player_s", "p06_rest", {})]


def p07_configs(tier):
    return [("player_s", "p07_terminate", {}), ("player_s", "p07_reset", {})]

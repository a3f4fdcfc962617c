"""Scenarios for the simulator (M01, M02, M03)."""
from collections import defaultdict

from .screen_s import gen_stubs


class SymMemory:
    """py65's ObservableMemory with symbolic addresses and contents (symbolic host only)."""
    h = None
    all = []

    def __init__(self, subject=None, addrWidth=16):
        self.mask = 0xffff
        self.log = []           # stores, latest last
        self.base = lambda a: 0
        self.rd, self.wr = defaultdict(list), defaultdict(list)
        self.groups = {}

    # -- contents, without callbacks

    def peek(self, a):
        h = self.h
        v = self.base(a)
        for x, y in self.log:
            if isinstance(y, Image):
                v = h.ite(h.and_(a >= x, a < x + len(y)), y.at(a - x), v)
            else:
                v = h.ite(h.eq(x, a), y, v)
        return v

    def poke(self, a, v):
        self.log.append((a, v))

    # -- callbacks

    def callbacks(self, kind, a):
        subs = self.rd if kind == "rd" else self.wr
        c = self.h.concrete(a)
        if c is not None:
            return list(subs.get(c, ()))
        g = self.groups.get(kind)
        if g is None:
            g = {}
            for k, l in subs.items():
                if l:
                    g.setdefault(tuple(id(x) for x in l), (list(l), []))[1].append(k)
            g = self.groups[kind] = list(g.values())
        for l, ks in g:
            if self.h.fork(in_set(self.h, a, ks)):
                return l
        return []

    def subscribe_to_read(self, addrs, cb):
        self._sub(self.rd, addrs, cb)

    def subscribe_to_write(self, addrs, cb):
        self._sub(self.wr, addrs, cb)

    def _sub(self, subs, addrs, cb):
        self.groups = {}
        for a in addrs:
            l = subs[int(a) & self.mask]
            if cb not in l:
                l.append(cb)

    def __getitem__(self, a):
        if isinstance(a, slice):
            return [self[i] for i in range(*a.indices(self.mask + 1))]
        a = self.h.py(a) & self.mask
        final = None
        for cb in self.callbacks("rd", a):
            r = cb(a)
            if r is not None:
                final = r
        return self.peek(a) if final is None else final

    def __setitem__(self, a, v):
        if isinstance(a, slice):
            for i, x in zip(range(*a.indices(self.mask + 1)), v):
                self[i] = x
            return
        a = self.h.py(a) & self.mask
        for cb in self.callbacks("wr", a):
            r = cb(a, v)
            if r is not None:
                v = r
        self.poke(a, v)

    def __len__(self):
        return self.mask + 1

    def write(self, start, data):
        start &= self.mask
        if isinstance(data, Image):
            # py65 does not wrap around
            data = data[:self.mask + 1 - start]
            if len(data):
                self.log.append((start, data))
            return
        for i in range(min(len(data), self.mask + 1 - start)):
            self.poke(start + i, data[i])


class Image:
    """Contents of a file as a function of the position (symbolic host only)."""

    def __init__(self, h, f, n, start=0):
        self.h, self.f, self.n, self.start = h, f, n, start

    def at(self, i):
        return self.f(i + self.start)

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b, c = i.indices(self.n)
            if c != 1:
                raise self.h.unsupported("slice with a step")
            return Image(self.h, self.f, max(0, b - a), self.start + a)
        i = int(i)
        if not -self.n <= i < self.n:
            raise IndexError("index out of range")
        return self.at(i % self.n)

    def __iter__(self):
        return (self.at(i) for i in range(self.n))


def ranges(ks):
    ks = sorted(ks)
    out = []
    for k in ks:
        if out and out[-1][1] == k - 1:
            out[-1][1] = k
        else:
            out.append([k, k])
    return out


def in_set(h, a, ks):
    return h.any([h.and_(a >= lo, a <= hi) for lo, hi in ranges(ks)])


class Cpu:
    """Stands for the processor, which these properties do not involve."""

    def __init__(self, memory=None, pc=0, **k):
        self.memory, self.pc, self.processorCycles = memory, pc, 0
        self.a = self.x = self.y = self.p = 0
        self.sp = 0xff

    def reset(self):
        pass

    def step(self):
        pass


def start(h, more=None, overrides=None):
    """Load the simulator (the real py65 in the real host)."""
    stubs = {"colormath": gen_stubs()["colormath"]}
    if h.symbolic:
        mem_cls = type("ObservableMemory", (SymMemory,), {"h": h})
        mem = h.module("py65.memory", ObservableMemory=mem_cls)
        dis = h.module("py65.disassembler", Disassembler=lambda cpu: None)
        mpus = {n: h.module("py65.devices." + n, MPU=Cpu) for n in ("mpu6502", "mpu65c02")}
        dev = h.module("py65.devices", **mpus)
        stubs.update({"py65": h.module("py65", memory=mem, disassembler=dis, devices=dev), "py65.memory": mem,
                      "py65.disassembler": dis, "py65.devices": dev,
                      "py65.devices.mpu65c02": mpus["mpu65c02"], "py65.devices.mpu6502": mpus["mpu6502"]})
    stubs.update(more or {})
    h.world(dirs=("simulator",), stubs=stubs, fresh=True, builtin_overrides=overrides)


def fill(h, mem, f):
    """Set the contents of a memory, bypassing callbacks."""
    if h.symbolic:
        mem.base, mem.log = f, []
    else:
        mem._subject[:] = [int(f(i)) for i in range(65536)]


def peek(h, mem, a):
    return mem.peek(a) if h.symbolic else mem._subject[int(a)]


def apple(h, enable=True):
    start(h)
    un, a2 = h.load("uthernet"), h.load("apple2")
    u = un.Uthernet(b"")
    a = a2.AppleII(u)
    if enable:
        a.memory_manager.enable()
    return a, u


def outcome(h, fn):
    """(exception name, address named, value) of an access."""
    try:
        v = fn()
    except Exception as e:
        addr = getattr(e, "address", getattr(e, "addr", None))
        return type(e).__name__, addr, None
    return None, None, v


# ------------------------------------------------------------------ M01

ORDERS = ["hl", "lh", "h", "l", "hlh", "lhl", ""]


def m01(h, order, op, wrap=False):
    a, u = apple(h)
    chip = h.fn8("chip", 16)
    fill(h, u.memory, chip)
    ph, pl = h.int("old_high", 0, 127), h.int("old_low", 0, 255)
    hi, lo = h.int("high", 0, 127), h.int("low", 0, 255)
    v = h.int("value", 0, 255)
    bus = a.memory
    bus[0xc095] = ph
    bus[0xc096] = pl
    H, L = ph, pl
    for c in order:
        if c == "h":
            bus[0xc095] = hi
            H = hi
        else:
            bus[0xc096] = lo
            L = lo
    p = H * 256 + L
    if wrap:
        h.assume(h.eq(p, 0x7fff))
    else:
        h.assume(h.and_(p >= 0x4000, p <= 0x7ffd))
    nxt = h.ite(h.eq(p, 0x7fff), 0, p + 1)
    nxt2 = p + 2
    old1, old2, old3 = chip(p), chip(nxt), chip(nxt2)
    q = h.int("other", 0, 0xffff)
    before = chip(q)
    stored = []
    if op[0] == "r":
        h.claim("the addressed byte is read", h.eq(bus[0xc097], old1))
    else:
        bus[0xc097] = v
        stored.append(p)
        h.claim("the byte is written where the pointer points", h.eq(peek(h, u.memory, p), v))
    w = h.int("value2", 0, 255)
    if op[1] == "r":
        h.claim("then the next byte is read", h.eq(bus[0xc097], old2))
    else:
        if wrap:
            # address 0 is the mode register, which takes only its defined bits
            h.assume(w <= 3)
        bus[0xc097] = w
        stored.append(nxt)
        h.claim("then the next byte is written", h.eq(peek(h, u.memory, nxt), w))
    if not wrap:
        h.claim("the third byte is next", h.eq(bus[0xc097], old3))
    h.claim("no other byte changes", h.implies(h.not_(h.any([h.eq(q, s) for s in stored])) if stored else True,
                                               h.eq(peek(h, u.memory, q), before)))
    h.cover("reached")


def m01_ptr(h, order):
    """The pointer itself over the whole address space, where it is visible."""
    a, u = apple(h)
    ph, pl = h.int("old_high", 0, 127), h.int("old_low", 0, 255)
    hi, lo = h.int("high", 0, 127), h.int("low", 0, 255)
    bus = a.memory
    if not hasattr(u, "ptr"):
        return
    u.ptr = ph * 256 + pl
    H, L = ph, pl
    for c in order:
        if c == "h":
            bus[0xc095] = hi
            H = hi
        else:
            bus[0xc096] = lo
            L = lo
        h.claim("pointer", h.eq(u.ptr, H * 256 + L))


def m01_mode(h):
    """The mode port reads and writes the chip's mode register and leaves the pointer alone."""
    a, u = apple(h)
    chip = h.fn8("chip", 16)
    fill(h, u.memory, chip)
    hi, lo, v = h.int("high", 0x40, 0x7f), h.int("low", 0, 255), h.int("value", 0, 3)
    bus = a.memory
    bus[0xc095] = hi
    bus[0xc096] = lo
    h.claim("mode is read", h.eq(bus[0xc094], chip(0)))
    bus[0xc094] = v
    h.claim("mode is written", h.eq(peek(h, u.memory, 0), v))
    h.claim("pointer is unchanged", h.eq(bus[0xc097], chip(hi * 256 + lo)))


def m01_configs(tier):
    out = [("sim_s", "m01", {"order": o, "op": op}) for o in ORDERS for op in ("rr", "wr", "rw", "ww")]
    out += [("sim_s", "m01", {"order": o, "op": op, "wrap": True}) for o in ("hl", "lh") for op in ("rr", "wr", "rw", "ww")]
    out += [("sim_s", "m01_ptr", {"order": o}) for o in ORDERS if o]
    out.append(("sim_s", "m01_mode", {}))
    return out


# ------------------------------------------------------------------ M02

# name: (off, on, status, can be switched by reading, simulated)
SWITCHES = {
    "80Store": (0xc000, 0xc001, 0xc018, False, False), "RamRd": (0xc002, 0xc003, 0xc013, False, False),
    "RamWrt": (0xc004, 0xc005, 0xc014, False, False), "IntCxROM": (0xc006, 0xc007, 0xc015, False, False),
    "AltZP": (0xc008, 0xc009, 0xc016, False, False), "SlotC3ROM": (0xc00a, 0xc00b, 0xc017, False, False),
    "80Col": (0xc00c, 0xc00d, 0xc01f, False, True), "AltCharSet": (0xc00e, 0xc00f, 0xc01e, False, True),
    "Text": (0xc050, 0xc051, 0xc01a, True, True), "Mixed": (0xc052, 0xc053, 0xc01b, True, True),
    "Page2": (0xc054, 0xc055, 0xc01c, True, True), "Hires": (0xc056, 0xc057, 0xc01d, True, True)}
ACCESSES = [(s, w) for s in SWITCHES for w in ("off", "on", "status")]


def m02(h, name, steps):
    """Any accesses, after which the named switch's status is read; all other switches in between."""
    a, u = apple(h)
    bus = a.memory
    off, on, status, byread, _ = SWITCHES[name]
    state = False
    # any state of this switch and of a neighbour
    for n in (name, "Page2" if name == "Hires" else "Hires"):
        x = h.fork(h.bool("init_" + n))
        w = SWITCHES[n][1 if x else 0]
        bus[w] = 0
        if n == name:
            state = x
    for k in range(steps):
        addr = h.int("addr%d" % k, 0, 0xffff)
        h.assume(in_set(h, addr, [x for s in SWITCHES.values() for x in s[:3]]))
        write = h.fork(h.bool("write%d" % k))
        v = h.int("value%d" % k, 0, 255)
        if k and steps > 1:
            h.assume(in_set(h, addr, SWITCHES[name][:3]))
        mine = h.fork(h.or_(h.eq(addr, off), h.eq(addr, on)))
        toon = h.fork(h.eq(addr, on)) if mine else None
        isstat = not mine and h.fork(in_set(h, addr, [s[2] for s in SWITCHES.values()]))
        if write:
            kind, named, r = outcome(h, lambda: bus.__setitem__(addr, v))
        else:
            kind, named, r = outcome(h, lambda: bus[addr])
        if isstat:
            if write:
                h.claim("writing a status address is trapped", kind == "TrapException" and h.eq(named, addr))
            else:
                h.claim("reading a status address is not trapped", kind is None)
        elif mine:
            if write or byread:
                h.claim("the access is effective", kind is None)
                state = toon
            else:
                h.claim("an unsupported access is trapped", kind == "TrapException" and h.eq(named, addr))
        kind, named, r = outcome(h, lambda: bus[status])
        h.claim("status can be read", kind is None)
        if kind is None:
            h.claim("bit 7 of the status is the state", h.eq(h.py(r) >= 128, state))
    h.cover("reached")


def m02_modes(h):
    """Accesses in a mode that a switch does not support, and switches that are not simulated."""
    a, u = apple(h)
    bus = a.memory
    addr, v = h.int("addr", 0, 0xffff), h.int("value", 0, 255)
    h.assume(in_set(h, addr, [x for s in SWITCHES.values() for x in s[:3]]))
    write = h.fork(h.bool("write"))
    kind, named, r = outcome(h, (lambda: bus.__setitem__(addr, v)) if write else (lambda: bus[addr]))
    wonly = [x for s in SWITCHES.values() if not s[3] for x in s[:2]]
    stat = [s[2] for s in SWITCHES.values()]
    unsim = [x for s in SWITCHES.values() if not s[4] for x in s[:2]]
    bad = in_set(h, addr, stat) if write else in_set(h, addr, wonly)
    h.claim("an unsupported access is trapped", h.implies(bad, kind == "TrapException" and h.eq(named, addr)))
    h.claim("a switch that is not simulated raises an exception", h.implies(in_set(h, addr, unsim), kind is not None))
    if write:
        rest = [x for s in SWITCHES.values() if s[4] for x in s[:2]]
    else:
        rest = stat + [x for s in SWITCHES.values() if s[4] and s[3] for x in s[:2]]
    h.claim("other accesses are not trapped", h.implies(in_set(h, addr, rest), kind is None))


def m02_generic(h, steps, mode):
    """A switch of its own at arbitrary distinct addresses, any accesses in the given mode."""
    start(h)
    mm = h.load("machine")
    io = {}
    got = []
    acc = {"R": mm.AccessMode.READ, "W": mm.AccessMode.WRITE, "RW": mm.AccessMode.RW}[mode]
    s = mm.SoftSwitch("x", clear_addr=0xc0a0, set_addr=0xc0a1, status_addr=0xc0a2, mode=acc,
                      callback=lambda x: got.append(x))
    t = mm.SoftSwitch("y", clear_addr=0xc0a3, set_addr=0xc0a4, status_addr=0xc0a5, mode=acc)
    s.register(io)
    t.register(io)
    m = mm.Machine()
    m.io_map = io
    state = {0xc0a2: False, 0xc0a5: False}
    calls = []
    for k in range(steps):
        addr = h.forkint(h.int("addr%d" % k, 0xc0a0, 0xc0a5))
        write = h.fork(h.bool("write%d" % k))
        v = h.int("value%d" % k, 0, 255)
        kind, named, r = outcome(h, lambda: m.io_interceptor(addr, v) if write else m.io_interceptor(addr))
        if addr in state:
            if write:
                h.claim("writing a status address is trapped", kind == "TrapException" and h.eq(named, addr))
            else:
                h.claim("status is the last effective state", h.and_(kind is None, kind is not None or h.eq(
                    h.py(r) >= 128, state[addr])))
        elif ("W" if write else "R") in mode:
            h.claim("a supported access is not trapped", kind is None)
            on = addr in (0xc0a1, 0xc0a4)
            state[0xc0a2 if addr < 0xc0a2 else 0xc0a5] = on
            if addr < 0xc0a2:
                calls.append(on)
        else:
            h.claim("an unsupported access is trapped", kind == "TrapException" and h.eq(named, addr))
    h.claim("the callback is told the new state", [bool(x) for x in got] == calls)
    for st, want in state.items():
        kind, named, r = outcome(h, lambda: m.io_interceptor(st))
        h.claim("final status", h.and_(kind is None, kind is not None or h.eq(h.py(r) >= 128, want)))


def m02_configs(tier):
    out = [("sim_s", "m02", {"name": n, "steps": 2 if tier != "thorough" else 3}) for n, s in SWITCHES.items() if s[4]]
    out.append(("sim_s", "m02_modes", {}))
    out += [("sim_s", "m02_generic", {"steps": 3 if tier == "thorough" else 2, "mode": m}) for m in ("R", "W", "RW")]
    return out


# ------------------------------------------------------------------ M03

def m03_write(h):
    """A write of any value to any address of the simulated Apple II."""
    a, u = apple(h)
    bus = a.memory
    ram = h.fn8("ram", 16)
    fill(h, bus, ram)
    addr, v, q = h.int("addr", 0, 0xffff), h.int("value", 0, 255), h.int("other", 0, 0xffff)
    # the declared extent of hi-res page 2 is left open here (see m03_regions)
    h.assume(h.not_(h.and_(addr >= 0x4000, addr <= 0x5fff)))
    io = h.fork(h.and_(addr >= 0xc000, addr <= 0xc0ff))
    if io:
        h.assume(h.not_(in_set(h, addr, known_io())))
    kind, named, r = outcome(h, lambda: bus.__setitem__(addr, v))
    rom = h.and_(addr >= 0xc100, h.or_(addr <= 0xc7ff, addr >= 0xd000))
    if kind is None:
        h.claim("only ordinary memory can be written", h.not_(rom) if not io else False)
        h.claim("the addressed byte is changed", h.eq(peek(h, bus, addr), v))
    else:
        h.claim("a trap is due to read-only memory or an undefined I/O address", h.or_(rom, io))
        h.claim("kind of trap", kind == ("TrapException" if io else "WriteProtectedException"))
        h.claim("the trap names the address", named is not None and h.eq(named, addr))
        h.claim("nothing is written", h.eq(peek(h, bus, addr), ram(addr)))
    h.claim("no other byte changes", h.implies(h.not_(h.eq(q, addr)), h.eq(peek(h, bus, q), ram(q))))
    h.cover("read-only memory", rom if not io else False)
    h.cover("written", kind is None)
    h.cover("undefined", io)


def known_io():
    return [x for s in SWITCHES.values() for x in s[:3]] + [0xc030, 0xc094, 0xc095, 0xc096, 0xc097]


def m03_read(h):
    """A read of any address of the simulated Apple II."""
    a, u = apple(h)
    bus = a.memory
    ram = h.fn8("ram", 16)
    fill(h, bus, ram)
    addr, q = h.int("addr", 0, 0xffff), h.int("other", 0, 0xffff)
    io = h.fork(h.and_(addr >= 0xc000, addr <= 0xc0ff))
    if io:
        h.assume(h.not_(in_set(h, addr, known_io())))
    kind, named, r = outcome(h, lambda: bus[addr])
    if io:
        h.claim("an undefined I/O address is trapped", kind == "TrapException" and h.eq(named, addr))
    else:
        h.claim("memory can be read", h.and_(kind is None, kind is not None or h.eq(r, ram(addr))))
    h.claim("reading changes nothing", h.eq(peek(h, bus, q), ram(q)))


def m03_io(h):
    """Any access to a defined I/O address."""
    a, u = apple(h)
    bus = a.memory
    ram = h.fn8("ram", 16)
    fill(h, bus, ram)
    addr, v, q = h.int("addr", 0xc000, 0xc0ff), h.int("value", 0, 255), h.int("other", 0, 0xffff)
    h.assume(in_set(h, addr, [0xc030, 0xc095, 0xc096]))
    write = h.fork(h.bool("write"))
    kind, named, r = outcome(h, (lambda: bus.__setitem__(addr, v)) if write else (lambda: bus[addr]))
    if write:
        h.claim("the address registers and the speaker can be written", kind is None)
    else:
        h.claim("reading an address register is trapped, touching the speaker is not",
                h.eq(kind is None, h.eq(addr, 0xc030)) if h.concrete(addr) is None else (kind is None) == (h.concrete(addr) == 0xc030))
        h.claim("the trap names the address", kind is None or h.eq(named, addr))
    h.claim("no other byte changes", h.implies(h.not_(h.eq(q, addr)), h.eq(peek(h, bus, q), ram(q))))


def texts(e):
    return [str(x) for x in list(vars(e).values()) if isinstance(x, str) or type(x).__module__ == "machine"]


def m03_label(h):
    """A trap tells a write from a read, whatever the value written."""
    a, u = apple(h)
    bus = a.memory
    addr, v = h.int("addr", 0xc000, 0xc0ff), h.int("value", 0, 255)
    h.assume(h.not_(in_set(h, addr, known_io())))

    def told(fn):
        try:
            fn()
        except Exception as e:
            return e
        return None
    w, r = told(lambda: bus.__setitem__(addr, v)), told(lambda: bus[addr])
    h.claim("both are trapped", w is not None and r is not None)
    tw, tr = texts(w), texts(r)
    if not any("?" in t or "<sym" in t for t in tw + tr):
        h.claim("the trap of a write is not that of a read", tw != tr)


def m03_chip(h):
    """Registers of the network chip that do not exist."""
    a, u = apple(h)
    chip = h.fn8("chip", 16)
    fill(h, u.memory, chip)
    addr, v = h.int("addr", 0, 0x7ff), h.int("value", 0, 255)
    none = [0x13, 0x14] + list(range(0x1e, 0x28)) + list(range(0x417, 0x420))
    h.assume(in_set(h, addr, none))
    write = h.fork(h.bool("write"))
    bus = a.memory
    bus[0xc095] = addr >> 8
    bus[0xc096] = addr & 255
    kind, named, r = outcome(h, (lambda: bus.__setitem__(0xc097, v)) if write else (lambda: bus[0xc097]))
    h.claim("a register that does not exist is trapped", kind == "TrapException" and named is not None and h.eq(named, addr))
    h.claim("nothing is written", h.eq(peek(h, u.memory, addr), chip(addr)))


REGIONS = [("a", 0x0100, 0x01ff, True), ("b", 0x0200, 0x0200, False), ("c", 0x3f00, 0x40ff, False), ("d", 0x4100, 0x41ff, True),
           ("e", 0xff00, 0xffff, False)]
ENTRIES = {"c": (0x3f00, 0x40ff), "d": (0x4180,)}


def regions(h):
    start(h)
    mem = h.load("memory")
    log = []

    def handler(n, e):
        return lambda cpu: log.append((n, e, cpu))
    rs = [mem.MemoryRegion(n, lo, hi, writable=w, entrypoints={e: handler(n, e) for e in ENTRIES.get(n, ())})
          for n, lo, hi, w in REGIONS]
    mgr = mem.MemoryManager(rs)
    ram = h.fn8("ram", 16)
    fill(h, mgr.memory, ram)
    mgr.enable()
    return mgr, ram, log


def m03_regions(h):
    """Writes under a memory map of its own."""
    mgr, ram, log = regions(h)
    bus = mgr.memory
    addr, v, q = h.int("addr", 0, 0xffff), h.int("value", 0, 255), h.int("other", 0, 0xffff)
    kind, named, r = outcome(h, lambda: bus.__setitem__(addr, v))
    ro = h.any([h.and_(addr >= lo, addr <= hi) for _, lo, hi, w in REGIONS if not w])
    if kind is None:
        h.claim("only writable regions can be written", h.not_(ro))
        h.claim("the addressed byte is changed", h.eq(peek(h, bus, addr), v))
    else:
        h.claim("a trap is due to a read-only region", ro)
        h.claim("kind of trap", kind == "WriteProtectedException")
        h.claim("the trap names the address", named is not None and h.eq(named, addr))
        h.claim("nothing is written", h.eq(peek(h, bus, addr), ram(addr)))
    h.claim("no other byte changes", h.implies(h.not_(h.eq(q, addr)), h.eq(peek(h, bus, q), ram(q))))
    h.claim("reads are not affected", h.implies(h.not_(h.eq(q, addr)), h.eq(bus[q], ram(q))))


def region_of(h, a):
    """Number of the region that an address belongs to (-1: none)."""
    r = -1
    for i, (_, lo, hi, _) in enumerate(REGIONS):
        r = h.ite(h.and_(a >= lo, a <= hi), i, r)
    return r


def m03_enter(h):
    """Execution moves from any address to any other."""
    mgr, ram, log = regions(h)
    pc, old = h.int("pc", 0, 0xffff), h.int("old_pc", 0, 0xffff)
    cpu = Cpu(mgr.memory)
    cpu.pc = pc
    kind, named, r = outcome(h, lambda: mgr.MaybeInterceptExecution(cpu, old))
    entries = [e for es in ENTRIES.values() for e in es]
    moved = h.not_(h.eq(region_of(h, pc), region_of(h, old)))
    rts = h.eq(ram(old), 0x60)
    entry = h.any([h.eq(pc, e) for e in entries])
    bad = h.and_(moved, h.not_(rts), h.not_(entry))
    h.claim("trapped if and only if the entry is not declared", bad if kind is not None else h.not_(bad))
    h.claim("kind of trap", kind in (None, "UndefinedEntryPointException"))
    if log:
        h.claim("one handler", len(log) == 1 and log[0][2] is cpu)
        h.claim("the handler is that of the entry point", h.eq(pc, log[0][1]))
    else:
        h.claim("an entry point's handler is called", h.not_(entry))
    h.cover("trapped", kind is not None)
    h.cover("entered", h.and_(moved, entry))
    h.cover("returned", h.and_(moved, rts))


def m03_rom(h):
    """Calls into the ROM of the simulated Apple II."""
    a, u = apple(h)
    bus = a.memory
    ram = h.fn8("ram", 16)
    fill(h, bus, ram)
    pc, old = h.int("pc", 0, 0xffff), h.int("old_pc", 0, 0xffff)
    h.assume(h.and_(pc >= 0xd000, h.or_(h.and_(old >= 0x800, old <= 0x1fff), h.and_(old >= 0x6000, old <= 0xbfff), old >= 0xd000)))
    a.cpu.pc = pc
    kind, named, r = outcome(h, lambda: a.memory_manager.MaybeInterceptExecution(a.cpu, old))
    entry = h.any([h.eq(pc, e) for e in (0xf3e2, 0xfca8, 0xfded, 0xfe89)])
    bad = h.and_(old < 0xd000, h.not_(entry), h.not_(h.eq(ram(old), 0x60)))
    h.claim("trapped if and only if the ROM routine is not declared", bad if kind is not None else h.not_(bad))
    h.cover("trapped", kind is not None)


def m03_configs(tier):
    return [("sim_s", f, {}) for f in ("m03_write", "m03_read", "m03_io", "m03_label", "m03_chip", "m03_regions", "m03_enter", "m03_rom")]


# ------------------------------------------------------------------ M04

PLAIN = list(range(0x01, 0x13)) + [0x1a, 0x1b, 0x403, 0x404, 0x405] + list(range(0x40c, 0x412)) + list(range(0x426, 0x42a))
UNIMPL = [0x15, 0x16, 0x17, 0x18, 0x19, 0x1c, 0x1d, 0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x2f, 0x402] + \
    list(range(0x406, 0x40c)) + list(range(0x412, 0x417)) + list(range(0x420, 0x426))


def chip_at(h, addr):
    a, u = apple(h)
    chip = h.fn8("chip", 16)
    fill(h, u.memory, chip)
    bus = a.memory

    def go(x):
        bus[0xc095] = x >> 8
        bus[0xc096] = x & 255
    return bus, u, chip, go


def m04_plain(h):
    """Any configuration register keeps what was written and no other byte changes."""
    addr, v, q = h.int("addr", 0, 0x7ff), h.int("value", 0, 255), h.int("other", 0, 0x7fff)
    h.assume(in_set(h, addr, PLAIN))
    bus, u, chip, go = chip_at(h, addr)
    go(addr)
    h.claim("register is read", h.eq(bus[0xc097], chip(addr)))
    go(addr)
    bus[0xc097] = v
    h.claim("no other byte changes", h.implies(h.not_(h.eq(q, addr)), h.eq(peek(h, u.memory, q), chip(q))))
    go(addr)
    h.claim("register keeps the value", h.eq(bus[0xc097], v))
    h.cover("reached")


def m04_unimpl(h):
    """Registers that are not simulated raise an error."""
    addr, v, q = h.int("addr", 0, 0x7ff), h.int("value", 0, 255), h.int("other", 0, 0x7fff)
    h.assume(in_set(h, addr, UNIMPL))
    bus, u, chip, go = chip_at(h, addr)
    write = h.fork(h.bool("write"))
    go(addr)
    kind, named, r = outcome(h, (lambda: bus.__setitem__(0xc097, v)) if write else (lambda: bus[0xc097]))
    h.claim("access raises an error", kind is not None)
    h.claim("nothing is written", h.eq(peek(h, u.memory, q), chip(q)))


def m04_socket(h, steps):
    """Any commands to the socket, after which its status is read."""
    bus, u, chip, go = chip_at(h, None)
    status, cmd = chip(0x403), chip(0x401)
    q = h.int("other", 0, 0x7fff)
    for k in range(steps):
        v = h.int("command%d" % k, 0, 255)
        if steps > 1:
            h.assume(h.any([h.eq(v, c) for c in (0, 1, 2, 4, 5, 8, 0x10, 0x20, 0x40, 0x41, 0x81)]))
        go(0x401)
        kind, named, r = outcome(h, lambda: bus.__setitem__(0xc097, v))
        if kind is not None:
            h.claim("only the receive command is not simulated", h.eq(v, 0x40))
        else:
            h.claim("the receive command is reported", h.not_(h.eq(v, 0x40)))
            cmd = v
            status = h.ite(h.eq(v, 1), 0x13, h.ite(h.eq(v, 4), 0x17, status))
        go(0x403)
        h.claim("status after the command", h.eq(bus[0xc097], status))
    h.claim("command register", h.eq(peek(h, u.memory, 0x401), cmd))
    h.claim("nothing else changes", h.implies(h.not_(in_set(h, q, [0x401, 0x403])), h.eq(peek(h, u.memory, q), chip(q))))
    h.cover("opened", h.eq(status, 0x13))
    h.cover("connected", h.eq(status, 0x17))


def m04_mode(h, port):
    """Mode register (through the mode port or the data port) and the socket's mode register."""
    bus, u, chip, go = chip_at(h, None)
    v, q = h.int("value", 0, 255), h.int("other", 0, 0x7fff)
    reg = 0x400 if port == "socket" else 0
    if port == "wmode":
        kind, named, r = outcome(h, lambda: bus.__setitem__(0xc094, v))
    else:
        go(reg)
        kind, named, r = outcome(h, lambda: bus.__setitem__(0xc097, v))
    ok = h.eq(v, 0x21) if port == "socket" else h.eq(v & 0x7c, 0)
    if kind is None:
        h.claim("only simulated modes are accepted", ok)
        h.claim("mode is kept", h.eq(peek(h, u.memory, reg), v))
        if port != "socket":
            h.claim("mode can be read back through the mode port", h.eq(bus[0xc094], v))
    else:
        h.claim("simulated modes are accepted", h.not_(ok))
        h.claim("nothing is written", h.eq(peek(h, u.memory, reg), chip(reg)))
    h.claim("nothing else changes", h.implies(h.not_(h.eq(q, reg)), h.eq(peek(h, u.memory, q), chip(q))))


def m04_configs(tier):
    return [("sim_s", "m04_plain", {}), ("sim_s", "m04_unimpl", {})] + [
        ("sim_s", "m04_socket", {"steps": k}) for k in ((1, 2, 3) if tier == "thorough" else (1, 2))] + [
        ("sim_s", "m04_mode", {"port": p}) for p in ("wmode", "data", "socket")]


# ------------------------------------------------------------------ M05

class ScriptedCpu(Cpu):
    """A processor that moves through given program counters, one per instruction."""

    def __init__(self, memory, pcs):
        Cpu.__init__(self, memory)
        self.pcs, self.steps = pcs, 0
        self.seen = []

    def step(self):
        if self.steps + 1 >= len(self.pcs):
            raise Done()
        self.seen.append(self.pc)
        self.steps += 1
        self.pc = self.pcs[self.steps]


class Done(Exception):
    """The script is over."""


def m05(h, steps, trace=False):
    """Running through any program counters until one instruction jumps to itself or a trap."""
    a, u = apple(h)
    bus = a.memory
    ram = h.fn8("ram", 16)
    fill(h, bus, ram)
    pcs = [h.int("pc%d" % i, 0, 0xffff) for i in range(steps + 1)]
    for p in pcs:
        # ordinary memory and the ROM: the two kinds of region that programs run in
        h.assume(h.or_(h.and_(p >= 0x800, p <= 0x1fff), h.and_(p >= 0x6000, p <= 0xbfff), p >= 0xd000))
    cpu = ScriptedCpu(bus, pcs)
    a.cpu = cpu
    kind, named, r = outcome(h, lambda: a.Run(pcs[0], trace=False))
    n = cpu.steps
    h.claim("the program is run in order", len(cpu.seen) == n and h.all([h.eq(x, y) for x, y in zip(cpu.seen, pcs)]))
    for i in range(n - 1):
        h.claim("an instruction that jumps to itself ends the run", h.not_(h.eq(pcs[i], pcs[i + 1])))

    def bad(i):
        old, pc = pcs[i - 1], pcs[i]
        entry = h.any([h.eq(pc, e) for e in (0xf3e2, 0xfca8, 0xfded, 0xfe89)])
        return h.and_(h.not_(h.eq(old >= 0xd000, pc >= 0xd000)), h.not_(entry), h.not_(h.eq(ram(old), 0x60)))
    for i in range(1, n):
        h.claim("entries before were declared or returns", h.not_(bad(i)))
    if kind is None:
        h.claim("the run ends at a jump to itself", n > 0 and h.eq(pcs[n], pcs[n - 1]))
    elif kind == "Done":
        h.claim("everything was run", n == steps)
        if n:
            h.claim("entries were declared or returns", h.not_(bad(n)))
    else:
        h.claim("kind of trap", kind == "UndefinedEntryPointException")
        h.claim("the trap is due to an undeclared entry", n > 0 and bad(n))
    h.cover("stopped", kind is None)
    h.cover("trapped", kind == "UndefinedEntryPointException")


def m05_long(h, loop, rounds):
    """A program that goes round a fixed loop many times and then to any place."""
    a, u = apple(h)
    bus = a.memory
    ram = h.fn8("ram", 16)
    fill(h, bus, ram)
    last = [h.int("pc%d" % i, 0, 0xffff) for i in range(2)]
    for p in last:
        h.assume(h.or_(h.and_(p >= 0x800, p <= 0x1fff), h.and_(p >= 0x6000, p <= 0xbfff)))
    body = [0x6000 + 3 * i for i in range(loop)]
    pcs = body * rounds + last
    n = loop * rounds
    cpu = ScriptedCpu(bus, pcs)
    a.cpu = cpu
    kind, named, r = outcome(h, lambda: a.Run(pcs[0], trace=False))
    h.claim("the loop is run to its end", cpu.steps >= n)
    h.claim("the loop is run in order", all(isinstance(x, int) for x in cpu.seen[:n]) and cpu.seen[:n] == pcs[:n])
    h.claim("no trap", kind is None or kind == "Done")
    if kind is None:
        h.claim("the run ends at a jump to itself", h.eq(pcs[cpu.steps], pcs[cpu.steps - 1]))
    h.cover("stopped", kind is None)
    h.cover("ran", kind == "Done")


def m05_configs(tier):
    return [("sim_s", "m05", {"steps": k}) for k in ((1, 2, 3, 4) if tier == "thorough" else (1, 2, 3))] + [
        ("sim_s", "m05_long", {"loop": k, "rounds": n}) for k, n in
        (((2, 40000), (3, 30000), (7, 1000), (2, 600000), (50, 2000)) if tier == "thorough" else ((2, 40000), (3, 30000), (7, 1000)))]


# ------------------------------------------------------------------ M06

class ImageFile:
    def __init__(self, h, f, n):
        self.data = Image(h, f, n) if h.symbolic else bytes(int(f(i)) for i in range(n))
        self.pos = 0

    def read(self, n=-1):
        n = len(self.data) if n is None or n < 0 else n
        r = self.data[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def seek(self, p, whence=0):
        self.pos = p if whence == 0 else self.pos + p if whence == 1 else len(self.data) + p
        return self.pos

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Failed(Exception):
    """subprocess.CalledProcessError"""

    def __init__(self, returncode, cmd, output=None, stderr=None):
        Exception.__init__(self, returncode, cmd)
        self.returncode, self.cmd = returncode, cmd


def m06(h, n, rc, stream=5):
    """What the simulated machine looks like when the simulator starts the program."""
    import types
    from .tools_s import File
    rom, prog = h.fn8("rom", 15), h.fn8("prog", 15)
    data = [h.u8("stream%d" % i) for i in range(stream)]
    q, v = h.int("at", 0, 0xffff), h.int("value", 0, 255)
    events = []
    sizes = {"APPLE2E.ROM": (rom, 0x8000), "ethernet.bin": (prog, n)}

    def fake_open(path, mode="r", *a, **k):
        base = str(path).split("/")[-1]
        if base == "out.bin":
            return File(h, data)
        if base == "ethernet.bin" and "extract" not in events:
            raise FileNotFoundError(2, "No such file or directory", str(path))
        return ImageFile(h, *sizes[base])

    def run(cmd, *a, **k):
        events.append("extract")
        if rc and k.get("check"):
            raise Failed(rc, cmd)
        return types.SimpleNamespace(returncode=rc, stdout=b"", stderr=b"", args=cmd)
    sub = h.module("subprocess", run=run, call=lambda *a, **k: run(*a, **k).returncode,
                   check_call=lambda *a, **k: run(*a, **dict(k, check=True)).returncode,
                   CalledProcessError=Failed, PIPE=-1, DEVNULL=-3, STDOUT=-2)
    start(h, {"subprocess": sub}, {"open": fake_open})
    sim, a2, un = h.load("simulator"), h.load("apple2"), h.load("uthernet")
    runs = []

    def run_program(self, pc, *a, **k):
        runs.append((self, pc))
    h.patch(a2.AppleII, "Run", run_program)
    stopped = None
    try:
        sim.main()
    except SystemExit as e:
        stopped = e.code if e.code is not None else 0
    except Exception as e:
        if not rc:
            raise
        stopped = 1
    if rc:
        h.claim("nothing runs without the program", not runs)
        h.claim("the failure is reported", stopped is not None and stopped != 0)
        h.cover("refused")
        return
    h.claim("one program runs", len(runs) == 1)
    if len(runs) != 1:
        return
    a, pc = runs[0]
    mem = a.memory
    h.claim("the program starts at its first byte", h.eq(pc, 0x8000))
    h.claim("the main ROM", h.implies(q >= 0xd000, h.eq(peek(h, mem, q), rom(q - 0x8000))))
    h.claim("the ROM of slot 6", h.implies(h.and_(q >= 0xc600, q <= 0xc6ff), h.eq(peek(h, mem, q), rom(q - 0xc000))))
    h.claim("the program", h.implies(h.and_(q >= 0x8000, q < 0x8000 + n), h.eq(peek(h, mem, q), prog(q - 0x8000))))
    h.claim("text goes to the ROM's output routine", h.and_(h.eq(peek(h, mem, 0x36), 0xf0), h.eq(peek(h, mem, 0x37), 0xfd)))
    s = a.uthernet.stream
    h.claim("the chip has the stream", len(s) == stream and h.all([h.eq(s[i], data[i]) for i in range(stream)]))
    before = peek(h, mem, q)
    kind, named, r = outcome(h, lambda: mem.__setitem__(q, v))
    rom_at = h.or_(q >= 0xd000, h.and_(q >= 0xc600, q <= 0xc6ff))
    if kind is None:
        h.claim("ROM is protected while the program runs", h.not_(rom_at))
    else:
        h.claim("a rejected store changes nothing", h.eq(peek(h, mem, q), before))
    h.cover("reached")


def m06_configs(tier):
    ns = (1, 0x1000, 0x3fff) if tier != "thorough" else (1, 2, 255, 256, 0x1000, 0x2345, 0x3fff, 0x4000)
    return [("sim_s", "m06", {"n": n, "rc": 0}) for n in ns] + [("sim_s", "m06", {"n": 0x1000, "rc": r}) for r in (1, 2, -9)]

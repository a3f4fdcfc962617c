"""The Apple II and W5100 as seen from the player: the environment of the 6502 executors.

Works over the host interface h: values are exact integers, symbolic or not.
Every access is recorded as (cycle, kind, address, value)."""

RXLO, RXHI = 0x6000, 0x7fff
SWITCHES = {0xc000: ("80store", 0, "w"), 0xc001: ("80store", 1, "w"), 0xc00c: ("80col", 0, "w"), 0xc00d: ("80col", 1, "w"),
            0xc050: ("text", 0, "rw"), 0xc051: ("text", 1, "rw"), 0xc052: ("mixed", 0, "rw"), 0xc053: ("mixed", 1, "rw"),
            0xc054: ("page2", 0, "rw"), 0xc055: ("page2", 1, "rw"), 0xc056: ("hires", 0, "rw"), 0xc057: ("hires", 1, "rw"),
            0xc05e: ("dhires", 1, "rw"), 0xc05f: ("dhires", 0, "rw")}
RSR, RXRD, CR, SR, MR = 0x426, 0x428, 0x401, 0x403, 0x400


class IO:
    def __init__(self, h, mode=3, ptr=0, regs=None, switches=None):
        self.h = h
        self.mode = mode
        self.ptr = ptr
        self.regs = dict(regs or {})
        self.rx = h.fn8("rx", 13)
        self.accesses = []          # (cycle, "r"/"w", address, value)
        self.chip = []              # (cycle, "r"/"w", chip address, value)
        self.commands = []          # (command, snapshot of registers)
        self.sw = dict(text=1, mixed=0, page2=0, hires=0, dhires=0)
        self.sw.update({"80store": 0, "80col": 0})
        self.sw.update(switches or {})
        self.key = None             # keyboard latch: None = never looked at
        self.keys = 0               # key presses taken from the keyboard
        self.n = {}
        self.polls = []             # received sizes reported
        self.statuses = []          # socket states reported
        self.resets = 0
        self.log = []               # switch changes and the like, in order

    def fresh(self, name, lo=0, hi=255):
        k = self.n.get(name, 0)
        self.n[name] = k + 1
        return self.h.int("%s_%d" % (name, k), lo, hi)

    # -- bus

    def read(self, a, cyc):
        c = self.h.concrete(a)
        if c is None:
            self.accesses.append((cyc, "r", a, None))
            return self.fresh("floating")
        v = self._read(c, cyc)
        self.accesses.append((cyc, "r", c, v))
        return v

    def write(self, a, v, cyc):
        c = self.h.concrete(a)
        self.accesses.append((cyc, "w", a if c is None else c, v))
        if c is not None:
            self._write(c, v, cyc)

    def _read(self, a, cyc):
        if a == 0xc000:
            if self.key != 1:
                self.key = self.h.forkint(self.fresh("key", 0, 1))
            return (self.key << 7) | self.fresh("keycode", 0, 127)
        if a == 0xc010:
            self._strobe()
            return self.fresh("strobe")
        if a == 0xc094:
            return self.mode
        if a == 0xc095:
            return self.ptr >> 8
        if a == 0xc096:
            return self.ptr & 0xff
        if a == 0xc097:
            return self._chip(None, cyc)
        self._switch(a, "r")
        return self.fresh("floating")

    def _write(self, a, v, cyc):
        if a == 0xc010:
            self._strobe()
        elif a == 0xc094:
            m = self.h.forkint(v)
            if m & 0x80:
                self.resets += 1
                self.log.append(("reset",))
                self.regs = {}
                self.ptr = 0
                self.mode = 0
            else:
                self.mode = m
        elif a == 0xc095:
            self.ptr = ((v & 0x7f) << 8) | (self.ptr & 0xff)
        elif a == 0xc096:
            self.ptr = (self.ptr & 0x7f00) | v
        elif a == 0xc097:
            self._chip(v, cyc)
        else:
            self._switch(a, "w")

    def _strobe(self):
        if self.key == 1:
            self.keys += 1
        self.key = 0
        self.log.append(("strobe",))

    def _switch(self, a, rw):
        s = SWITCHES.get(a)
        if s and rw in s[2]:
            self.sw[s[0]] = s[1]
            self.log.append(("switch", s[0], s[1]))

    # -- chip

    def in_rx(self):
        h = self.h
        c = h.concrete(self.ptr)
        if c is not None:
            return RXLO <= c <= RXHI
        return h.fork(h.and_(self.ptr >= RXLO, self.ptr <= RXHI))

    def _chip(self, v, cyc):
        h = self.h
        inc = self.mode & 2
        if not self.mode & 1:
            # without indirect mode the data port does nothing
            self.chip.append((cyc, "x", self.ptr, v))
            return self.fresh("nomode")
        if self.in_rx():
            r = self.rx(self.ptr & 0x1fff)
            self.chip.append((cyc, "r" if v is None else "w", self.ptr, v))
            if inc:
                self.ptr = RXLO | ((self.ptr + 1) & 0x1fff)
            return r
        a = h.concrete(self.ptr)
        if a is None:
            a = h.forkint(self.ptr)
        r = None
        if v is None:
            r = self._reg(a)
        else:
            self.regs[a] = v
            if a == CR:
                self.commands.append((v, dict(self.regs)))
                self.log.append(("command", v))
                self.regs[a] = 0
        self.chip.append((cyc, "r" if v is None else "w", a, r if v is None else v))
        if inc:
            self.ptr = (a + 1) & 0x7fff
        return r

    def _reg(self, a):
        if a == RSR:
            v = self.fresh("size", 0, 8192)
            self.polls.append(v)
            self.log.append(("poll", v))
            return v >> 8
        if a == RSR + 1:
            if not self.polls:
                self.polls.append(self.fresh("size", 0, 8192))
            return self.polls[-1] & 0xff
        if a == SR:
            v = self.fresh("status")
            self.statuses.append(v)
            self.log.append(("status", v))
            return v
        if a not in self.regs:
            self.regs[a] = self.h.int("reg_%04x" % a, 0, 255) if not self.resets else 0
        return self.regs[a]

    def state(self):
        return (self.mode, self.ptr, tuple(sorted(self.regs.items(), key=lambda x: x[0])), tuple(sorted(self.sw.items())))


def toggles(io):
    return [c for c, k, a, v in io.accesses if isinstance(a, int) and a & 0xfff0 == 0xc030]

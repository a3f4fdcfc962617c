"""Symbolic executor for NMOS 6502 machine code.

Registers and memory hold exact integers of the host h (symbolic or not); the program counter is
always concrete; branches on symbolic flags split the path.  Cycle counts include page crossings and
taken branches; every bus access outside instruction fetches is performed at its cycle, including the
dummy accesses of indexed stores and read-modify-write instructions."""

IMP, ACC, IMM, ZP, ZPX, ZPY, ABS, ABX, ABY, INX_, INY_, REL, IND = range(13)
LEN = {IMP: 1, ACC: 1, IMM: 2, ZP: 2, ZPX: 2, ZPY: 2, ABS: 3, ABX: 3, ABY: 3, INX_: 2, INY_: 2, REL: 2, IND: 3}

OPS = {}


def _op(name, **modes):
    for m, code in modes.items():
        OPS[code] = (name, globals()[{"inx": "INX_", "iny": "INY_"}.get(m, m.upper())])


for n, base in (("ORA", 0x00), ("AND", 0x20), ("EOR", 0x40), ("ADC", 0x60), ("LDA", 0xa0), ("CMP", 0xc0), ("SBC", 0xe0)):
    _op(n, imm=base + 9, zp=base + 5, zpx=base + 0x15, abs=base + 0xd, abx=base + 0x1d, aby=base + 0x19, inx=base + 1, iny=base + 0x11)
_op("STA", zp=0x85, zpx=0x95, abs=0x8d, abx=0x9d, aby=0x99, inx=0x81, iny=0x91)
for n, base in (("ASL", 0x00), ("ROL", 0x20), ("LSR", 0x40), ("ROR", 0x60)):
    _op(n, acc=base + 0xa, zp=base + 6, zpx=base + 0x16, abs=base + 0xe, abx=base + 0x1e)
_op("INC", zp=0xe6, zpx=0xf6, abs=0xee, abx=0xfe)
_op("DEC", zp=0xc6, zpx=0xd6, abs=0xce, abx=0xde)
_op("LDX", imm=0xa2, zp=0xa6, zpy=0xb6, abs=0xae, aby=0xbe)
_op("LDY", imm=0xa0, zp=0xa4, zpx=0xb4, abs=0xac, abx=0xbc)
_op("STX", zp=0x86, zpy=0x96, abs=0x8e)
_op("STY", zp=0x84, zpx=0x94, abs=0x8c)
_op("CPX", imm=0xe0, zp=0xe4, abs=0xec)
_op("CPY", imm=0xc0, zp=0xc4, abs=0xcc)
_op("BIT", zp=0x24, abs=0x2c)
_op("JMP", abs=0x4c, ind=0x6c)
for n, c in dict(BPL=0x10, BMI=0x30, BVC=0x50, BVS=0x70, BCC=0x90, BCS=0xb0, BNE=0xd0, BEQ=0xf0).items():
    _op(n, rel=c)
for n, c in dict(BRK=0x00, JSR=0x20, RTI=0x40, RTS=0x60, PHP=0x08, PLP=0x28, PHA=0x48, PLA=0x68, DEY=0x88, TAY=0xa8,
                 INY=0xc8, INX=0xe8, CLC=0x18, SEC=0x38, CLI=0x58, SEI=0x78, TYA=0x98, CLV=0xb8, CLD=0xd8, SED=0xf8,
                 TXA=0x8a, TXS=0x9a, TAX=0xaa, TSX=0xba, DEX=0xca, NOP=0xea).items():
    OPS[c] = (n, IMP)

READ_CYC = {IMM: 2, ZP: 3, ZPX: 4, ZPY: 4, ABS: 4, ABX: 4, ABY: 4, INX_: 6, INY_: 5}
STORE_CYC = {ZP: 3, ZPX: 4, ZPY: 4, ABS: 4, ABX: 5, ABY: 5, INX_: 6, INY_: 6}
RMW_CYC = {ACC: 2, ZP: 5, ZPX: 6, ABS: 6, ABX: 7}
IMP_CYC = dict(BRK=7, JSR=6, RTI=6, RTS=6, PHP=3, PHA=3, PLP=4, PLA=4)
BRANCH = dict(BPL=("n", 0), BMI=("n", 1), BVC=("v", 0), BVS=("v", 1), BCC=("c", 0), BCS=("c", 1), BNE=("z", 0), BEQ=("z", 1))


class Machine:
    """Runs the player's image.  stale: image addresses whose content is arbitrary (self-modified)."""

    def __init__(self, h, image, io, pc, a, x, y, sp=0xff, c=0, stale=(), zp=()):
        self.h, self.image, self.io = h, image, io
        self.pc, self.a, self.x, self.y, self.sp = pc, a, x, y, sp
        self.c = c
        self.nval, self.zval, self.v = h.int("flag_n", 0, 255), h.int("flag_z", 0, 255), h.int("flag_v", 0, 1)
        self.d = 0
        self.cyc = 0
        self.stale = set(stale)
        self.mem = {}               # concrete writes
        self.wlog = []              # all writes (address, value, cycle)
        self.nsym = 0               # symbolic-address writes in wlog
        self.init = {}
        self.executed = set()
        self.stop = None
        self.target = None
        self.jump_at = None
        self.text = []              # characters output
        self.rom = {}               # pc -> handler
        self.aux = {}               # screen bank contents cleared by ROM: not modelled per byte
        self.cleared = {"main": False, "aux": False}
        self.snap = {}
        self.steps = 0
        self.irq_ok = True

    # -- memory

    def peek(self, a):
        """Memory at a concrete address."""
        h = self.h
        chain = []
        val = None
        if self.nsym:
            for i in range(len(self.wlog) - 1, -1, -1):
                wa, wv, _ = self.wlog[i]
                if isinstance(wa, int):
                    if wa == a:
                        val = wv
                        break
                elif wa.lo <= a <= wa.hi:
                    chain.append((h.eq(wa, a), wv))
        elif a in self.mem:
            val = self.mem[a]
        if val is None:
            val = self.initial(a)
        for c, v in reversed(chain):
            val = h.ite(c, v, val)
        return val

    def initial(self, a):
        if a in self.init:
            return self.init[a]
        if a in self.image and a not in self.stale:
            return self.image[a]
        self.init[a] = v = self.h.int("mem_%04x" % a, 0, 255)
        return v

    def poke(self, a, v, cyc):
        c = self.h.concrete(a)
        if c is not None:
            a = c
            self.mem[a] = v
        else:
            self.nsym += 1
        self.wlog.append((a, v, cyc))

    def _in_io(self, a):
        if a.hi < 0xc000 or a.lo > 0xc0ff:
            return False
        if a.lo >= 0xc000 and a.hi <= 0xc0ff:
            return True
        return self.h.fork(self.h.and_(a >= 0xc000, a <= 0xc0ff))

    def load(self, a, cyc):
        h = self.h
        c = h.concrete(a)
        if c is not None:
            if 0xc000 <= c <= 0xc0ff:
                return self.io.read(c, cyc)
            return self.peek(c)
        if self._in_io(a):
            return self.io.read(a, cyc)
        if a.hi - a.lo > 512:
            return h.int("load_%d" % self.steps, 0, 255)
        v = 0
        for k in range(a.lo, a.hi + 1):
            v = h.ite(h.eq(a, k), self.peek(k) if not 0xc000 <= k <= 0xc0ff else 0, v)
        return v

    def store(self, a, v, cyc):
        h = self.h
        c = h.concrete(a)
        if c is not None and 0xc000 <= c <= 0xc0ff:
            self.io.write(c, v, cyc)
        elif c is None and self._in_io(a):
            self.io.write(a, v, cyc)
        else:
            self.poke(a, v, cyc)

    def fetch(self, a):
        v = self.h.concrete(self.peek(a))
        return v

    # -- execution

    def run(self, stops=(), limit=3000):
        """Execute until: dispatch (jump through a self-modified operand), pc in stops, brk, loop, limit."""
        self.stop = None
        while self.stop is None:
            if self.pc in stops and self.steps:
                self.stop = "at"
                break
            f = self.rom.get(self.pc)
            if f is not None:
                r = f(self)
                if r:
                    self.stop = r
                    break
                continue
            if self.pc >= 0xd000 or 0xc000 <= self.pc <= 0xcfff:
                self.stop = "rom"
                break
            if self.steps >= limit:
                self.stop = "limit"
                break
            self.step()
        return self.stop

    def rts(self):
        self.sp = (self.sp + 2) & 0xff
        lo = self.h.concrete(self.peek(0x100 + ((self.sp - 1) & 0xff)))
        hi = self.h.concrete(self.peek(0x100 + self.sp))
        self.pc = ((lo | hi << 8) + 1) & 0xffff

    def push(self, v):
        self.poke(0x100 + self.sp, v, self.cyc)
        self.sp = (self.sp - 1) & 0xff

    def pop(self):
        self.sp = (self.sp + 1) & 0xff
        return self.peek(0x100 + self.sp)

    def nz(self, v):
        self.nval = self.zval = v

    def _word(self, a):
        lo, hi = self.peek(a), self.peek(a + 1)
        return lo + (hi << 8)

    def step(self):
        h = self.h
        self.steps += 1
        pc = self.pc
        self.executed.add(pc)
        code = self.fetch(pc)
        if code is None:
            self.stop = "modified code"
            return
        if code not in OPS:
            self.stop = "undefined instruction"
            return
        name, mode = OPS[code]
        nxt = pc + LEN[mode]
        if name == "JSR":
            mode = ABS
            nxt = pc + 3
        if name == "JMP" or name == "JSR":
            lo, hi = self.peek(pc + 1), self.peek(pc + 2)
            t = lo + (hi << 8)
            if mode == IND:
                p = h.concrete(t)
                if p is None:
                    self.stop = "wild"
                    return
                t = self.peek(p) | (self.peek((p & 0xff00) | ((p + 1) & 0xff)) << 8)
                self.cyc += 5
            else:
                self.cyc += 3 if name == "JMP" else 6
            if name == "JMP" and any(k in self.mem or k in self.stale for k in (pc + 1, pc + 2)):
                self.stop = "dispatch"
                self.target = t
                self.jump_at = pc
                return
            c = h.concrete(t)
            if c is None:
                self.stop = "wild"
                return
            if name == "JSR":
                self.push((pc + 2) >> 8)
                self.push((pc + 2) & 0xff)
            self.jump(pc, c)
            return
        if mode == REL:
            flag, want = BRANCH[name]
            self.cyc += 2
            cond = {"n": lambda: self.nval >= 0x80, "z": lambda: h.eq(self.zval, 0), "c": lambda: h.eq(self.c, 1),
                    "v": lambda: h.eq(self.v, 1)}[flag]()
            if not want:
                cond = h.not_(cond)
            if h.fork(cond):
                off = h.concrete(self.peek(pc + 1))
                if off is None:
                    self.stop = "modified code"
                    return
                t = (nxt + (off - 256 if off >= 128 else off)) & 0xffff
                self.cyc += 1 + (t >> 8 != nxt >> 8)
                self.jump(pc, t)
            else:
                self.pc = nxt
            return
        if mode in (IMP, ACC) and name not in ("ASL", "LSR", "ROL", "ROR"):
            self.implied(name, nxt)
            return
        self.pc = nxt
        if name in ("STA", "STX", "STY"):
            cyc = STORE_CYC[mode]
            a, raw, _ = self.addr(pc, mode, cyc)
            if raw is not None:
                self.load(raw, self.cyc + cyc - 2)       # dummy read
            self.store(a, {"STA": self.a, "STX": self.x, "STY": self.y}[name], self.cyc + cyc - 1)
            self.cyc += cyc
            return
        if name in ("ASL", "LSR", "ROL", "ROR", "INC", "DEC"):
            cyc = RMW_CYC[mode]
            if mode == ACC:
                self.a = self.rmw(name, self.a)
                self.cyc += 2
                return
            a, raw, _ = self.addr(pc, mode, cyc)
            if raw is not None:
                self.load(raw, self.cyc + cyc - 4)
            v = self.load(a, self.cyc + cyc - 3)
            c = h.concrete(a)
            if c is not None and 0xc000 <= c <= 0xc0ff:
                self.store(a, v, self.cyc + cyc - 2)     # dummy write
            r = self.rmw(name, v)
            self.store(a, r, self.cyc + cyc - 1)
            self.cyc += cyc
            return
        cyc = READ_CYC[mode]
        if mode == IMM:
            v = self.peek(pc + 1)
        else:
            a, raw, cross = self.addr(pc, mode, cyc)
            if cross:
                self.load(raw, self.cyc + cyc - 1)       # dummy read at the uncorrected address
                cyc += 1
            v = self.load(a, self.cyc + cyc - 1)
        self.cyc += cyc
        self.alu(name, v)

    def addr(self, pc, mode, cyc):
        """(address, uncorrected address of an indexed access or None, page crossed)."""
        h = self.h
        if mode == ZP:
            return self.peek(pc + 1), None, False
        if mode in (ZPX, ZPY):
            return (self.peek(pc + 1) + (self.x if mode == ZPX else self.y)) & 0xff, None, False
        if mode == ABS:
            return self._word(pc + 1), None, False
        if mode in (ABX, ABY, INY_):
            if mode == INY_:
                z = h.concrete(self.peek(pc + 1))
                base = self.peek(z) | (self.peek((z + 1) & 0xff) << 8)
            else:
                base = self._word(pc + 1)
            i = self.x if mode == ABX else self.y
            cross = h.fork((base & 0xff) + i > 0xff)
            if h.concrete(base) is not None and not cross:
                b = h.concrete(base)
                a = b + i
                if not isinstance(a, int) and a.hi > 0xffff:
                    a = a & 0xffff
                elif isinstance(a, int):
                    a &= 0xffff
                return a, a, False
            a = (base + i) & 0xffff
            raw = (base & 0xff00) | ((base + i) & 0xff)
            return a, raw, cross
        if mode == INX_:
            z = (self.peek(pc + 1) + self.x) & 0xff
            z = h.forkint(z)
            return self.peek(z) | (self.peek((z + 1) & 0xff) << 8), None, False
        raise AssertionError(mode)

    def jump(self, pc, t):
        if t <= pc:
            s = self.state()
            old = self.snap.setdefault(t, [])
            if sum(1 for o in old if self.same(o, s)) >= 2:
                self.stop = "loop"
            old.append(s)
        self.pc = t

    def state(self):
        return (self.x, self.y, self.sp, dict(self.mem), self.nsym, self.io.state())

    def same(self, p, q):
        return _same(p, q)

    def implied(self, name, nxt):
        self.cyc += IMP_CYC.get(name, 2)
        self.pc = nxt
        if name == "NOP":
            pass
        elif name == "BRK":
            self.stop = "brk"
        elif name in ("INX", "DEX"):
            self.x = (self.x + (1 if name == "INX" else 255)) & 0xff
            self.nz(self.x)
        elif name in ("INY", "DEY"):
            self.y = (self.y + (1 if name == "INY" else 255)) & 0xff
            self.nz(self.y)
        elif name in ("TAX", "TAY", "TXA", "TYA", "TSX", "TXS"):
            src, dst = name[1].lower(), name[2].lower()
            v = {"a": self.a, "x": self.x, "y": self.y, "s": self.sp}[src]
            if dst == "s":
                self.sp = self.h.forkint(v)
            else:
                setattr(self, dst, v)
                self.nz(v)
        elif name in ("CLC", "SEC"):
            self.c = int(name == "SEC")
        elif name == "CLV":
            self.v = 0
        elif name in ("CLD", "SED"):
            self.d = int(name == "SED")
        elif name in ("CLI", "SEI"):
            pass
        elif name == "PHA":
            self.push(self.a)
        elif name == "PLA":
            self.a = self.pop()
            self.nz(self.a)
        elif name == "PHP":
            self.flags = getattr(self, "flags", []) + [(self.nval, self.zval, self.c, self.v, self.d)]
            self.push(0)
        elif name == "PLP":
            if not getattr(self, "flags", []):
                self.stop = "unmodelled"
                return
            self.pop()
            self.nval, self.zval, self.c, self.v, self.d = self.flags.pop()
        elif name == "RTS":
            lo, hi = self.h.concrete(self.pop()), self.h.concrete(self.pop())
            if lo is None or hi is None:
                self.stop = "wild"
                return
            self.pc = ((lo | hi << 8) + 1) & 0xffff
        else:
            self.stop = "unmodelled"

    def rmw(self, name, v):
        if name == "ASL":
            self.c, r = v >> 7, (v << 1) & 0xff
        elif name == "LSR":
            self.c, r = v & 1, v >> 1
        elif name == "ROL":
            self.c, r = v >> 7, ((v << 1) & 0xff) | self.c
        elif name == "ROR":
            self.c, r = v & 1, (v >> 1) | (self.c << 7)
        elif name == "INC":
            r = (v + 1) & 0xff
        else:
            r = (v + 255) & 0xff
        self.nz(r)
        return r

    def alu(self, name, v):
        if name in ("ADC", "SBC", "CMP", "CPX", "CPY") and self.d:
            self.stop = "decimal mode"
            return
        if name in ("LDA", "LDX", "LDY"):
            setattr(self, name[2].lower(), v)
            self.nz(v)
        elif name in ("ORA", "AND", "EOR"):
            self.a = {"ORA": lambda: self.a | v, "AND": lambda: self.a & v, "EOR": lambda: self.a ^ v}[name]()
            self.nz(self.a)
        elif name in ("ADC", "SBC"):
            w = v if name == "ADC" else v ^ 0xff
            s = self.a + w + self.c
            r = s & 0xff
            self.v = (((self.a ^ r) & (w ^ r)) >> 7) & 1
            self.c = s >> 8
            self.a = r
            self.nz(r)
        elif name in ("CMP", "CPX", "CPY"):
            g = {"CMP": self.a, "CPX": self.x, "CPY": self.y}[name]
            s = g + 256 - v
            self.c = s >> 8
            self.nz(s & 0xff)
        elif name == "BIT":
            self.nval = v
            self.zval = self.a & v
            self.v = (v >> 6) & 1
        else:
            raise AssertionError(name)


def _same(p, q):
    """Are two states the same for certain (structurally)?"""
    if isinstance(p, (tuple, list)):
        return type(p) == type(q) and len(p) == len(q) and all(_same(x, y) for x, y in zip(p, q))
    if isinstance(p, dict):
        return p.keys() == q.keys() and all(_same(p[k], q[k]) for k in p)
    if p is q:
        return True
    if isinstance(p, (int, str)) and isinstance(q, (int, str)):
        return p == q
    t, u = getattr(p, "t", None), getattr(q, "t", None)
    return t is not None and u is not None and t.eq(u)

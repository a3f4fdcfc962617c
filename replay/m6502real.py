"""The machine of symx/m6502.py with py65 as its processor (for replaying counterexamples)."""
from py65.devices import mpu6502

from symx import m6502


class Bus:
    def __init__(self, m):
        self.m = m
        self.code = ()

    def __getitem__(self, a):
        m = self.m
        a &= 0xffff
        if a in self.code:
            return m.peek(a)
        if 0x100 <= a <= 0x1ff:
            return m.peek(a)
        return m.load(a, m.cyc + m.when)

    def __setitem__(self, a, v):
        m = self.m
        a &= 0xffff
        m.store(a, v, m.cyc + m.when)


class Machine(m6502.Machine):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.bus = Bus(self)
        self.mpu = mpu6502.MPU(memory=self.bus)
        self.when = 0

    def step(self):
        code = self.peek(self.pc)
        if code not in m6502.OPS:
            self.steps += 1
            self.executed.add(self.pc)
            self.stop = "undefined instruction"
            return
        name, mode = m6502.OPS[code]
        if name in ("JMP", "JSR", "BRK", "RTS", "PHP", "PLP", "RTI", "CLI", "SEI", "PHA", "PLA") or \
                self.d and name in ("ADC", "SBC", "CMP", "CPX", "CPY"):
            return super().step()
        self.steps += 1
        self.executed.add(self.pc)
        pc = self.pc
        p = self.mpu
        p.pc, p.a, p.x, p.y, p.sp = pc, self.a, self.x, self.y, self.sp
        p.p = 0x30 | (self.nval & 0x80) | (0x40 if self.v else 0) | (8 if self.d else 0) | (2 if self.zval == 0 else 0) | self.c
        self.bus.code = tuple(range(pc, pc + m6502.LEN[mode]))
        cyc = p.cycletime[code]
        self.when = cyc - 1
        ix = mode in (m6502.ABX, m6502.ABY, m6502.INY_)
        if ix and name != "":
            base = self.peek(pc + 1) | self.peek(pc + 2) << 8
            if mode == m6502.INY_:
                z = self.peek(pc + 1)
                base = self.peek(z) | self.peek((z + 1) & 0xff) << 8
            i = self.x if mode == m6502.ABX else self.y
            raw = (base & 0xff00) | ((base + i) & 0xff)
            store = name in ("STA", "STX", "STY")
            rmw = name in ("INC", "DEC", "ASL", "LSR", "ROL", "ROR")
            if store or rmw or (base & 0xff) + i > 0xff:
                self.load(raw, self.cyc + (cyc - 2 if store else cyc - 4 if rmw else cyc - 1))
                if not store and not rmw:
                    self.when = cyc
        n0 = len(self.io.accesses)
        before = p.processorCycles
        if name in ("INC", "DEC", "ASL", "LSR", "ROL", "ROR") and mode != m6502.ACC:
            # read, dummy write, write
            vals = {}
            m = self

            class Rmw:
                def __getitem__(s, a):
                    if a in m.bus.code:
                        return m.peek(a)
                    vals[a] = v = m.load(a, m.cyc + cyc - 3)
                    return v

                def __setitem__(s, a, v):
                    if 0xc000 <= a <= 0xc0ff:
                        m.store(a, vals[a], m.cyc + cyc - 2)
                    m.store(a, v, m.cyc + cyc - 1)
            p.memory = Rmw()
            p.step()
            p.memory = self.bus
        else:
            p.step()
        self.cyc += p.processorCycles - before
        self.a, self.x, self.y, self.sp = p.a, p.x, p.y, p.sp
        self.nval = p.p & 0x80
        self.zval = 0 if p.p & 2 else 1
        self.v = (p.p >> 6) & 1
        self.d = (p.p >> 3) & 1
        self.c = p.p & 1
        if mode == m6502.REL and p.pc != pc + 2:
            self.jump(pc, p.pc)
        else:
            self.pc = p.pc

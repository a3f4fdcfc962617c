"""Shared by the demonstrations: imports the transcoder's modules from the tree in the current directory."""
import os
import sys
import types

sys.path.insert(0, os.path.join(os.getcwd(), "transcoder"))
sys.dont_write_bytecode = True
for _n in ("librosa", "audioread"):
    sys.modules.setdefault(_n, types.ModuleType(_n))

import numpy as np


class Row:
    def __init__(self, bits):
        self.bits = bits

    def __getitem__(self, pair):
        p = np.asarray(pair).astype(np.uint64)
        x = (p >> np.uint64(self.bits)) ^ (p & np.uint64(2 ** self.bits - 1))
        n = np.zeros(p.shape, dtype=np.uint16)
        for i in range(self.bits):
            n += ((x >> np.uint64(i)) & np.uint64(1)).astype(np.uint16)
        return n if n.shape else np.uint16(n)


class Hamming:
    """A distance table: number of differing window bits."""

    def __init__(self, bits):
        self.bits = bits

    def __getitem__(self, o):
        return Row(self.bits)


def hamming_tables():
    import screen
    for c in (screen.HGRBitmap, screen.DHGRBitmap):
        c.edit_distances = classmethod(lambda cls, p: Hamming(int(cls.MASKED_BITS)))


def movie(samples, frames, mode="DHGR", rate=14700, fps=30., **kw):
    """A Movie over given samples and frames."""
    import audio, frame_grabber, movie, video_mode

    class Audio:
        def __init__(self, *a, **k):
            self.sample_rate = float(rate)

        def audio_stream(self):
            return iter(samples)

    class Grabber:
        def __init__(self, *a, **k):
            self.input_frame_rate = fps

        def frames(self):
            return iter(frames)
    audio.Audio = Audio
    frame_grabber.FileFrameGrabber = Grabber
    hamming_tables()
    return movie.Movie("x.mp4", video_mode=video_mode.VideoMode[mode], **kw)


def memory(seed, top=128):
    import screen
    rng = np.random.RandomState(seed)
    m = screen.MemoryMap(screen_page=1)
    m.page_offset[:] = rng.randint(0, top, size=(32, 256))
    m.page_offset[screen.SCREEN_HOLES] = 0
    return m


class Apple:
    """The player, built from the tree in the current directory, on py65 with a simple W5100."""

    def __init__(self):
        import re, shutil, subprocess, tempfile
        from py65.devices import mpu6502
        d = tempfile.mkdtemp()
        try:
            p = os.path.join(d, "player")
            shutil.copytree("player", p)
            for f in os.listdir(p):
                if f.endswith((".o", ".lst", ".dsk", ".map", ".dbg")) or f == "iivision":
                    os.remove(os.path.join(p, f))
            subprocess.run(["make", "build", "CC65_BIN=/usr/bin", "CC65_HOME=/usr/share/cc65"], cwd=p,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            img = open(os.path.join(p, "iivision"), "rb").read()[0x3a:]
            self.labels = dict((n, int(v, 16)) for n, v in re.findall(
                r'name="([^"]*)".*?val=0x([0-9A-F]+).*?type=lab', open(os.path.join(p, "iivision.dbg")).read()))
        finally:
            shutil.rmtree(d)
        self.ram = [0] * 65536
        self.ram[0x800:0x800 + len(img)] = img
        self.chip = [0] * 0x8000
        self.ptr, self.mode = 0x6000, 3
        self.commands, self.ticks, self.switches = [], [], []
        self.size, self.status = 0x2000, 0
        self.keys, self.key = [], False          # keys: pressed before the n-th look
        self.looks = 0
        self.rom = {}
        self.cpu = mpu6502.MPU(memory=self)
        self.cpu.p = 0x30

    def __getitem__(self, a):
        if 0xc000 <= a <= 0xc0ff:
            return self.io(a, None)
        return self.ram[a]

    def __setitem__(self, a, v):
        if 0xc000 <= a <= 0xc0ff:
            self.io(a, v)
        elif a < 0xc000:
            self.ram[a] = v

    def io(self, a, v):
        if a == 0xc000 and v is None:
            self.looks += 1
            self.key = self.key or self.looks in self.keys
            return 0x80 if self.key else 0
        if a == 0xc010:
            self.key = False
        elif a == 0xc030:
            self.ticks.append(self.cpu.processorCycles)
        elif a == 0xc094 and v is not None:
            self.mode = v
            if v & 0x80:
                self.chip[0:0x800] = [0] * 0x800
                self.ptr = 0
        elif a == 0xc095:
            if v is None:
                return self.ptr >> 8
            self.ptr = (self.ptr & 0xff) | (v & 0x7f) << 8
        elif a == 0xc096:
            if v is None:
                return self.ptr & 0xff
            self.ptr = (self.ptr & 0x7f00) | v
        elif a == 0xc097:
            p = self.ptr
            self.ptr = 0x6000 | (p + 1) & 0x1fff if p >= 0x6000 else p + 1
            if v is not None:
                self.chip[p] = v
                if p == 0x401:
                    self.commands.append((v, self.chip[0x428] << 8 | self.chip[0x429]))
                    self.status = {1: 0x13, 4: 0x17}.get(v, self.status)
                return 0
            if p == 0x426:
                s = self.size() if callable(self.size) else self.size
                return s >> 8
            if p == 0x403:
                return self.status
            return self.chip[p]
        else:
            self.switches.append(a)
        return 0

    def run(self, pc, until, steps=5000):
        """Run from pc until pc is in until (at least one step)."""
        self.cpu.pc = pc
        for _ in range(steps):
            self.cpu.step()
            pc = self.cpu.pc
            if pc in self.rom:
                self.rom[pc]()
                self.cpu.sp = (self.cpu.sp + 2) & 0xff
                s = 0x100 + self.cpu.sp
                self.cpu.pc = (self.ram[s - 1] | self.ram[s] << 8) + 1
            if self.cpu.pc in until:
                return self.cpu.pc
        return None


def fail(msg):
    print("BROKEN:", msg)
    sys.exit(1)

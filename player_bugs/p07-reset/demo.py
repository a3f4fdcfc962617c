from demo_common import *
a = Apple()
for r in (0xf3f2, 0xfded): a.rom[r] = lambda: None
a.chip[0x6000:0x6009] = [0, 0, 0, 0, 0, 0, 0, 0xbf, 0xf0]
if a.run(0x800, {0xbff0}) != 0xbff0: fail("no dispatch")
v = a.ram[0x3f2:0x3f5]
if v[2] != v[1] ^ 0xa5: fail(v)

from demo_common import *
a = Apple()
END = 0xbff0
log = []
a.rom[0xf3f2] = lambda: (log.append(("clear", 0xc055 in a.switches and 0xc001 in a.switches, 0xc050 in a.switches)),
                         a.ram.__setitem__(slice(0x2000, 0x4000), [0] * 0x2000) if not 0xc055 in a.switches else None)
a.rom[0xfded] = lambda: None
a.chip[0x6000:0x6009] = [0, 0, 0, 0, 0, 0, 1, END >> 8, END & 255]
r = a.run(0x800, {END})
if r != END: fail("no dispatch")
if log != [("clear", False, False), ("clear", True, False)]: fail(log)

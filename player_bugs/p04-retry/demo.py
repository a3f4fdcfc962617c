from demo_common import *
a = Apple()
out = []
a.rom[0xfded] = lambda: out.append(a.cpu.a)
class S(dict): pass
orig = a.io
def io(addr, v):
    r = orig(addr, v)
    if a.status == 0x17: a.status = 0
    return r
a.io = io
brk = [0]
r = a.run(0x800, {0}, 60000)
if r is None and len(a.commands) > 30: fail("%d commands" % len(a.commands))
if len(a.commands) != 12: fail(len(a.commands))

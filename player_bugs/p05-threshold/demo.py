from demo_common import *
a = Apple()
END = 0xbff0
def tick(n, p, data, x=0):
    a.ptr = 0x6100
    a.chip[0x6100:0x6100 + 7] = data + [END >> 8, END & 255]
    a.cpu.x = x
    a.ticks.clear()
    c = a.cpu.processorCycles
    r = a.run(a.labels["op_tick_%d_page_%d" % (n, p)], {END})
    return r == END, a.cpu.processorCycles - c

n = [0]
def size():
    n[0] += 1
    return 1800 if n[0] < 5 else 2048
a.size = size
a.cpu.y = 0x68; a.cpu.x = 0; a.ptr = 0x0402
a.chip[0x6800:0x6802] = [END >> 8, END & 255]
if a.run(a.labels["checkrecv"], {END}) != END: fail("no dispatch")
if n[0] < 5: fail("started with 1800 bytes")

from demo_common import *
a = Apple()
END = 0xbff0
def tick(n, p, data, x=0):
    a.ptr = 0x6100
    a.chip[0x6100:0x6100 + 7] = data + [END >> 8, END & 255]
    a.cpu.x = x
    a.ticks.clear()
    c = a.cpu.processorCycles
    r = a.run(a.labels["op_tick_%d_page_%d" % (n, p)], {END})
    return r == END, a.cpu.processorCycles - c
tick(34, 40, [1, 2, 3, 4, 5])
if a.cpu.x: fail("X=%d" % a.cpu.x)

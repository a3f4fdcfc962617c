from demo_common import *
a = Apple()
END = 0xbff0
def tick(n, p, data, x=0):
    a.ptr = 0x6100
    a.chip[0x6100:0x6100 + 7] = data + [END >> 8, END & 255]
    a.cpu.x = x
    a.ticks.clear()
    c = a.cpu.processorCycles
    r = a.run(a.labels["op_tick_%d_page_%d" % (n, p)], {END})
    return r == END, a.cpu.processorCycles - c

a.chip[0x428] = 0x08; a.chip[0x429] = 0
a.ptr = 0x6ffe
a.chip[0x6ffe:0x7002] = [0x54, 0, END >> 8, END & 255]
if a.run(a.labels["op_ack"], {END}) != END: fail("no dispatch")
if a.commands != [(0x40, 0x1000)]: fail(a.commands)

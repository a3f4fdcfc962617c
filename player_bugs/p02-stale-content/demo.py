from demo_common import *
a = Apple()
END = 0xbff0
def tick(n, p, data, x=0):
    a.ptr = 0x6100
    a.chip[0x6100:0x6100 + 7] = data + [END >> 8, END & 255]
    a.cpu.x = x
    a.ticks.clear()
    c = a.cpu.processorCycles
    r = a.run(a.labels["op_tick_%d_page_%d" % (n, p)], {END})
    return r == END, a.cpu.processorCycles - c
tick(22, 40, [0x55, 1, 2, 3, 4])
tick(20, 40, [0x22, 10, 20, 30, 40])
if [a.ram[0x2800 + i] for i in (10, 20, 30, 40)] != [0x22] * 4: fail([a.ram[0x2800 + i] for i in (10, 20, 30, 40)])

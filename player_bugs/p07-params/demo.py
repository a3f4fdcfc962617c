from demo_common import *
a = Apple()
a.keys = [5]
if a.run(a.labels["op_terminate"], {0xbf00}) != 0xbf00: fail("does not quit")
s = 0x100 + a.cpu.sp
r = (a.ram[s + 1] | a.ram[s + 2] << 8) + 1
t = a.ram[r + 1] | a.ram[r + 2] << 8
if [a.ram[r]] + a.ram[t:t + 7] != [0x65, 4, 0, 0, 0, 0, 0, 0]: fail(a.ram[t:t + 7])

from demo_common import *
import opcodes, machine
a = Apple()
END = 0xbff0
st = machine.Machine()
for p in range(32, 64):
    op = opcodes.TICK_OPCODES[(24, p)](0, (0, 0, 0, 0))
    b = list(st.emit(op))[:2]
    if (b[0] << 8 | b[1]) != a.labels["op_tick_24_page_%d" % p]: fail(p)

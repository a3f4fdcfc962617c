from demo_common import *
import opcodes, machine
a = Apple()
st = machine.Machine()
for t in range(4, 68, 2):
    b = list(st.emit(opcodes.TICK_OPCODES[(t, 63)](0, (0, 0, 0, 0))))[:2]
    if (b[0] << 8 | b[1]) != a.labels["op_tick_%d_page_63" % t]: fail(t)

from demo_common import *
a = Apple()
a.key = True
a.keys = [50]
if a.run(a.labels["op_terminate"], {0xbf00}) != 0xbf00: fail("does not quit")
if a.looks < 40: fail("quit after %d looks" % a.looks)

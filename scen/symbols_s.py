"""Scenarios for binding opcodes to the player's symbols (S08)."""
import io

from .movie_s import stubs


def names():
    out = ["op_header", "op_terminate", "op_nop", "op_ack"]
    for t in range(4, 68, 2):
        for p in range(32, 64):
            out.append("op_tick_%d_page_%d" % (t, p))
    return out


OTHERS = ["_op_header_hgr", "op_tick_4_page_32_tail", "_op_tick_page_32_tail_4", "tick_4_page_32", "op_tick_4_page_3",
          "op_ack_2", "xop_ack", "op_tick_04_page_32", "main", "op_"]


def dbg(h, addr, order, drop=()):
    """A debug file: {name: address} in the given order, with other lines in between."""
    lines = ["version\tmajor=2,minor=0", "info\tcsym=0,file=600,lib=1,line=1418,mod=2,scope=2,seg=9",
             'file\tid=0,name="main.s",size=33654,mtime=0x63C69311,mod=0']
    for i, n in enumerate(order):
        if n in drop:
            continue
        if n in addr:
            v = h.hex_text(addr[n])
        else:
            v = "0x%04X" % (0x8000 + i)
        lines.append('sym\tid=%d,name="%s",addrsize=absolute,scope=1,def=721+%d,ref=%d,val=%s,seg=0,type=lab' % (i, n, i, i, v))
        if i % 100 == 3:
            lines.append('sym\tid=%d,name="ext%d",addrsize=absolute,scope=1,def=721,type=imp' % (5000 + i, i))
            lines.append("line\tid=%d,file=0,line=1235,span=4262" % i)
    lines.append("type\tid=0,val=\"008920\"")
    return "\n".join(lines) + "\n"


class Text(io.StringIO):
    pass


def bind(h, text):
    h.load_errors = (ValueError, KeyError)
    opened = []

    def fake_open(path, *a, **k):
        opened.append(path)
        return Text(text)
    h.world(stubs=stubs(h), builtin_overrides={"open": fake_open})
    oc = h.load("opcodes")
    return oc, opened


def arrange(names, how):
    if how == "reversed":
        return names[::-1]
    if how == "shuffled":
        return [names[(i * 389) % len(names)] for i in range(len(names))]
    return list(names)


def s08_bind(h, layout, order, wide=None):
    """Any addresses: each routine anywhere in a window of its own, the windows in any of several orders."""
    ns = names()
    addr = {}
    for i, n in enumerate(arrange(ns, layout)):
        addr[n] = h.int("address of " + n, 1 + 63 * i, 63 + 63 * i)
    if wide is not None:
        # one routine anywhere among the others
        addr[ns[wide]] = h.int("address", 1 + 63 * 500, 63 + 63 * 507)
    oc, opened = bind(h, dbg(h, addr, arrange(ns + OTHERS, order)))
    mc, vm = h.load("machine"), h.load("video_mode")
    st = mc.Machine()
    h.claim("the debug file is the player's", len(opened) == 1 and opened[0].replace("./", "").endswith("player/iivision.dbg"))

    def starts(name, op):
        b = list(st.emit(op))[:2]
        a = addr[name]
        h.claim("%s starts at its routine" % name.rstrip("0123456789"), h.and_(
            h.eq(h.py(b[0]), a >> 8), h.eq(h.py(b[1]), a & 255)))
    starts("op_ack", oc.Ack(False))
    starts("op_terminate", oc.Terminate())
    starts("op_nop", oc.Nop())
    for t in range(4, 68, 2):
        for p in range(32, 64):
            starts("op_tick_%d_page_%d" % (t, p), oc.TICK_OPCODES[(t, p)](0, (0, 0, 0, 0)))
    h.cover("bound")


def s08_missing(h, lo, hi):
    """A routine is missing from the debug file (one of several at a time, chosen symbolically)."""
    ns = names()
    k = h.forkint(h.int("missing", lo, hi))
    addr = {n: 1 + 63 * i for i, n in enumerate(ns)}
    r = h.raises((ValueError, KeyError), bind, h, dbg(h, addr, ns + OTHERS, drop=(ns[k],)))
    h.claim("a missing routine is reported", r)
    h.cover("missing")


def s08_configs(tier):
    out = []
    for layout, order in (("as is", "as is"), ("reversed", "shuffled"), ("shuffled", "reversed"), ("shuffled", "as is")):
        out.append(("symbols_s", "s08_bind", {"layout": layout, "order": order}))
    out.append(("symbols_s", "s08_bind", {"layout": "as is", "order": "as is", "wide": 77}))
    if tier == "thorough":
        for w in range(0, 1028, 51):
            out.append(("symbols_s", "s08_bind", {"layout": "shuffled", "order": "shuffled", "wide": w}))
    n = 1028
    step = 64 if tier == "quick" else 16
    for lo in range(0, n, step):
        out.append(("symbols_s", "s08_missing", {"lo": lo, "hi": min(lo + (3 if tier == "quick" else step - 1), n - 1)}))
    return out

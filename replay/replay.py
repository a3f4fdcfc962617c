"""Replays a counterexample against the real code.  Exit 1: the violation is real."""
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import realhost  # noqa


def main(path):
    with open(path) as f:
        d = json.load(f)
    mod = importlib.import_module("scen." + d["scenario"][0])
    fn = getattr(mod, d["scenario"][1])
    h = realhost.RealHost(d["inputs"])
    os.chdir(realhost.REPO)
    real_stdout = sys.stdout
    sys.stdout = open(os.devnull, "w")
    try:
        try:
            fn(h, **d["cfg"])
        finally:
            sys.stdout = real_stdout
    except realhost.AssumeFailed:
        print("replay: inputs outside the assumptions")
        return 3
    except realhost.Skip:
        print("replay: skipped")
        return 3
    except realhost.HarnessError:
        traceback.print_exc()
        print("replay: harness error")
        return 3
    except Exception as e:
        tb = e.__traceback__
        last = None
        while tb is not None:
            f = tb.tb_frame.f_code.co_filename
            if os.path.abspath(f).startswith(realhost.REPO + "/"):
                last = "repo"
            elif "/scen/" in f:
                last = "scen"
            tb = tb.tb_next
        traceback.print_exc()
        if last == "repo":
            print("replay: REPRODUCED exception %s: %s" % (type(e).__name__, e))
            return 1
        print("replay: harness error")
        return 3
    if h.failed:
        print("replay: REPRODUCED failing claims: %s" % "; ".join(h.failed[:10]))
        return 1
    print("replay: not reproduced (%d claims hold)" % len(h.checked))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))

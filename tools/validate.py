#!/usr/bin/env python3-vt
"""Runs the repository's own unit tests in the environment in which the checks execute the code.

Compares the outcome per test with the list of reliably passing tests (BASELINE.json): the stand-ins for
numpy and the builtins must not change what the tests observe."""
import json
import os
import sys
import traceback
import unittest

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)

import numpy  # noqa: E402

from scen.screen_s import gen_stubs  # noqa: E402
from symx import core, host, load  # noqa: E402

MODULES = ["colours_test", "opcodes_test", "screen_test", "symbol_table_test", "frame_grabber_test", "video_test",
           "make_data_tables_test"]


def scenario(h, out):
    stubs = dict(gen_stubs())
    io_ = h.module("skvideo.io")
    stubs.update({"skvideo": h.module("skvideo", io=io_), "skvideo.io": io_, "PIL": h.module("PIL", Image=None),
                  "audioread": h.module("audioread"), "librosa": h.module("librosa")})
    import io
    stubs["unittest"] = unittest
    stubs["io"] = io
    h.world(stubs=stubs, fresh=True)
    s = h.load("screen")
    data = {}

    def distances(cls, palette):
        key = (cls.NAME, palette.value)
        if key not in data:
            f = os.path.join(load.REPO, "transcoder/data/%s_palette_%d_edit_distance.npz" % key)
            d = numpy.load(f)["edit_distance"]
            n = int(cls.MASKED_BITS)

            def entry(o, a, b):
                a, b = int(a), int(b)
                return int(d[o][(a << n) + b]) + int(d[o][(b << n) + a])
            data[key] = h.table_fn(d.shape[0], n, entry, dtype=str(d.dtype))
        return data[key]
    h.patch(s.Bitmap, "edit_distances", classmethod(distances))
    for name in MODULES:
        try:
            m = h.load(name)
        except BaseException as e:
            out["%s" % name] = "import: %r" % (e,)
            continue
        for cname, c in list(vars(m).items()):
            if not (isinstance(c, type) and issubclass(c, unittest.TestCase)):
                continue
            for t in unittest.defaultTestLoader.getTestCaseNames(c):
                key = "%s::%s::%s" % (name, cname, t)
                case = c(t)
                try:
                    case.setUp()
                    getattr(case, t)()
                    out[key] = "passed"
                except unittest.SkipTest:
                    out[key] = "skipped"
                except AssertionError as e:
                    out[key] = "failed: %s" % str(e)[:300]
                except BaseException:
                    out[key] = "error: " + traceback.format_exc()[-700:]
    for k, v in out.items():
        h.claim(k, True)
    with open("/tmp/validate.json", "w") as f:
        json.dump(out, f, indent=1)


def main():
    os.chdir(load.REPO)
    r = host.run_config(scenario, {"out": {}}, budget_s=3000, known=())
    if not os.path.exists("/tmp/validate.json"):
        print(r)
        return 2
    out = json.load(open("/tmp/validate.json"))
    os.remove("/tmp/validate.json")
    for k, v in out.items():
        if v != "passed":
            print(k, v)
    want = {t.replace("transcoder.", "", 1).replace("::", ".").replace(".", "::") for t in json.load(
        open("/opt/vp/BASELINE.json"))["stable"]}
    wrong = sorted(want ^ {k for k, v in out.items() if v == "passed"})
    print("disagree with the test suite:", wrong)
    print(len([v for v in out.values() if v == "passed"]), "of", len(out), "passed;", r["status"], r.get("error"))
    return 1 if wrong else 0


if __name__ == "__main__":
    sys.exit(main())

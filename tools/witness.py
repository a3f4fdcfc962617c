#!/usr/bin/env python3-vt
"""Checks the replay side: inputs of paths on which every claim holds are run against the real code.

witness.py [ID...]: for every configuration of the quick tier, the first few paths' inputs (found by the solver) are
replayed.  Every claim must hold there too, so a scenario that cannot be replayed, or a place where the symbolic
environment and the real one differ, shows up here and not when a counterexample is to be confirmed.
"""
import importlib
import json
import multiprocessing
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)
import run  # noqa


def one(job):
    pid, i, modname, fnname, cfg, kkeys, p = job
    from symx import host, core
    from scen import registry
    fn = getattr(importlib.import_module("scen." + modname), fnname)
    if getattr(fn, "direct", False):
        return pid, cfg, "direct", 0, ""
    core.Engine.no_split = True
    r = host.run_config(fn, cfg, budget_s=int(os.environ.get("VERIF_BUDGET", "100")), known=kkeys, witnesses=2)
    bad = []
    for k, w in enumerate(r["witness"][:3]):
        path = "/tmp/witness_%s_%d_%d.json" % (pid, i, k)
        with open(path, "w") as f:
            json.dump({"property": pid, "scenario": [modname, fnname], "cfg": cfg, "inputs": w, "claims": []}, f)
        ok, out = run.replay(registry.PROPS[pid], path)
        if "not reproduced" not in out:
            bad.append((path, out[-700:]))
        else:
            os.remove(path)
    return pid, cfg, fnname, len(r["witness"]), bad


def main():
    from scen import registry
    jobs = []
    for pid in sys.argv[1:] or sorted(registry.PROPS):
        p = registry.PROPS[pid]
        if p.get("prepare"):
            continue
        kk = tuple(k["key"] for k in run.load_known(pid))
        for i, (m, f, c) in enumerate(p["configs"]("quick")):
            jobs.append((pid, i, m, f, c, kk, None))
    n = {}
    with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=4) as pool:
        for pid, cfg, fn, k, bad in pool.imap_unordered(one, jobs):
            a = n.setdefault(pid, [0, 0, 0])
            a[0] += 1
            a[1] += k
            a[2] += len(bad)
            for path, out in bad:
                print("BAD %s %s %s %s\n%s" % (pid, fn, json.dumps(cfg)[:200], path, out), flush=True)
    for pid in sorted(n):
        print("%s: %d configurations, %d inputs replayed, %d bad" % (pid, *n[pid]))


if __name__ == "__main__":
    main()

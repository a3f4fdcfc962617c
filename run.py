#!/usr/bin/env python3-vt
"""Runs the check of one property: run.py PROPERTY quick|thorough."""
import importlib
import json
import multiprocessing
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)

REPLAY_PY = "/opt/venv/bin/python"


def worker(job):
    i, modname, fnname, cfg, budget, known, deadline = job
    budget = max(1, min(budget, deadline - time.time()))
    from symx import host
    mod = importlib.import_module("scen." + modname)
    fn = getattr(mod, fnname)
    if getattr(fn, "direct", False):
        # a decision procedure of its own (the 6502 executor): returns the result dictionary
        t = time.time()
        try:
            r = fn(**cfg, budget_s=budget)
        except BaseException:
            import traceback
            r = {"status": "error", "error": traceback.format_exc()[-3000:], "queries": 0,
                 "solver_s": 0, "paths": 0, "branches": 0, "claims": 0, "functions": [], "cex": None,
                 "covers": {}, "known": [], "names": []}
        r.setdefault("known", [])
        r.setdefault("covers", {})
        r["cfg"] = cfg
        r["wall_s"] = time.time() - t
    else:
        r = host.run_config(fn, cfg, budget_s=budget, known=known)
    r["job"] = i
    r["scenario"] = [modname, fnname]
    return r


def load_known(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    from scen import registry
    from symx import core
    p = registry.PROPS[pid]
    budget = int(os.environ.get("VERIF_BUDGET", 780 if tier == "quick" else 6 * 3600))
    known = load_known(pid)
    kkeys = tuple(k["key"] for k in known)
    jobs = []
    prep = p.get("prepare")
    if prep:
        prep()
    for modname, fnname, cfg in p["configs"](tier):
        # the whole check ends within the budget, not each configuration on its own
        jobs.append((len(jobs), modname, fnname, cfg, budget, kkeys, t0 + budget + 40))
    if not jobs:
        print("no configurations")
        return 2
    nproc = int(os.environ.get("VERIF_JOBS", "8"))
    results = []
    outdir = os.path.join(HERE, "out", pid)
    os.makedirs(outdir, exist_ok=True)
    violations = []
    bad = []
    verbose = os.environ.get("VERIF_VERBOSE")
    core.jobs_init(nproc - min(nproc, len(jobs)))
    if len(jobs) == 1 or nproc == 1:
        it = map(worker, jobs)
        pool = None
    else:
        pool = multiprocessing.get_context("fork").Pool(min(nproc, len(jobs)), maxtasksperchild=p.get("maxtasks", 20))
        it = pool.imap_unordered(worker, jobs)
    try:
        for r in it:
            results.append(r)
            if pool is not None and len(jobs) - len(results) < nproc:
                core.jobs_give()
            if verbose:
                print("  %s %s %s paths=%d q=%d solver=%.1f wall=%.1f" % (
                    r["scenario"][1], json.dumps(r["cfg"])[:100], r["status"], r["paths"], r["queries"],
                    r["solver_s"], r["wall_s"]), flush=True)
            if r["status"] == "violated":
                path = os.path.join(outdir, "cex_%d.json" % r["job"])
                with open(path, "w") as f:
                    json.dump({"property": pid, "scenario": r["scenario"], "cfg": r["cfg"],
                               "inputs": r["cex"]["inputs"], "claims": r["cex"]["claims"]}, f, indent=1)
                ok, out = replay(p, path)
                print("counterexample %s: %s" % (r["cfg"], "; ".join(r["cex"]["claims"])))
                print(out[-1500:].rstrip())
                if ok:
                    violations.append((path, r["cex"]["claims"]))
                    break
                bad.append(r)
                if r.get("trace"):
                    print(r["trace"][-1500:])
            elif r["status"] != "held":
                bad.append(r)
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()
    wall = time.time() - t0
    covers = {}
    for r in results:
        for k, v in r["covers"].items():
            covers[k] = covers.get(k, False) or v
    uncovered = sorted(k for k, v in covers.items() if not v)
    missing = [c for c in p.get("covers", []) if c not in covers]
    st = {}
    for r in results:
        st[r["status"]] = st.get(r["status"], 0) + 1
    fns = sorted({f for r in results for f in r["functions"]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": p.get("level", "other"),
        "coverage": {
            "explanation": p["bounds"],
            "method": p["technique"],
            "configurations": len(jobs), "configurations_decided": st.get("held", 0) + st.get("violated", 0),
            "status": st, "paths": sum(r["paths"] for r in results),
            "branch_decisions": sum(r.get("branches", 0) for r in results),
            "queries": sum(r["queries"] for r in results),
            "solver_s": round(sum(r["solver_s"] for r in results), 3),
            "claims_closed_by_simplification": sum(r.get("simplified", 0) for r in results),
            "claims_discharged": sum(r["claims"] for r in results),
            "claim_kinds": sorted({n for r in results for n in r.get("names", [])})[:60],
            "functions_encoded": fns,
            "reached": covers,
        },
        "assumptions": p.get("assumptions", []),
        "violations": len(violations),
        "wall_s": round(wall, 2),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    seen_known = sorted({k for r in results for k in r["known"]})
    for k in known:
        if k["key"] in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s %s: %d configurations %s, %d paths, %d queries, solver %.1f s, wall %.1f s" % (
        pid, tier, len(jobs), st, ev["coverage"]["paths"], ev["coverage"]["queries"],
        ev["coverage"]["solver_s"], wall))
    if violations:
        for path, claims in violations:
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if bad:
        for r in bad[:5]:
            print("NO ANSWER: %s %s: %s" % (r["cfg"], r["status"], (r.get("error") or "")[-1500:]))
        return 2
    if uncovered or missing:
        print("NO ANSWER: situations never reached: %s" % (uncovered + missing))
        return 2
    return 0


def replay(p, path):
    cmd = p.get("replay_cmd", [REPLAY_PY, os.path.join(HERE, "replay", "replay.py")])
    env = dict(os.environ)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    try:
        r = subprocess.run(cmd + [path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200, env=env)
    except subprocess.TimeoutExpired:
        return False, "replay timed out"
    return r.returncode == 1, r.stdout.decode(errors="replace")


if __name__ == "__main__":
    sys.exit(main())

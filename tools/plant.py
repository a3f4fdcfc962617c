"""Plants a bug: makes a scratch copy of /repo, applies edits, confirms that it builds, that the
tests pass, that the demonstration tells the two apart, and writes /verif/seeded/<id>/.

plant(id, property, edits, needs, breaks, demo): edits are (file, old text, new text); demo is a
Python program run with cwd at the tree under test (with demo_common.py beside it)."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
COMMON = open(os.path.join(HERE, "tools", "demo_common.py")).read()
SH = '''#!/bin/bash
# cwd: the tree under test
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$d"
exec /opt/venv/bin/python -W ignore "$d/demo.py"
'''


def env():
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    return e


def plant(id, prop, edits, needs, breaks, demo, tests=True, check=True, sh=SH):
    only = os.environ.get("ONLY")
    if only and id not in only.split(","):
        return
    d = "/tmp/plant/" + id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    try:
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", d, "diff"], stdout=subprocess.PIPE, check=True).stdout.decode()
        out = os.path.join(HERE, "seeded", id)
        os.makedirs(out, exist_ok=True)
        w = lambda n, s: open(os.path.join(out, n), "w").write(s)
        w("patch.diff", diff)
        w("demo.sh", sh)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        w("demo.py", demo)
        w("demo_common.py", COMMON)
        w("meta.json", json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1))
        r = []
        for t in ("/repo", d):
            x = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=t, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, env=env(), timeout=280)
            r.append((x.returncode, x.stdout.decode()[-600:]))
        ok = r[0][0] == 0 and r[1][0] != 0
        print(id, "demo", r[0][0], r[1][0], "" if ok else "BAD DEMO", r[0][1] if r[0][0] else "", r[1][1][-200:], flush=True)
        if tests:
            x = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--rootdir=" + d, "--timeout=120",
                                "--continue-on-collection-errors", "--tb=line", "transcoder"], cwd=d,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env())
            tail = x.stdout.decode().strip().splitlines()[-1]
            print(id, "tests", tail, "" if "41 passed" in tail else "TESTS FAIL", flush=True)
        if check:
            x = subprocess.run(["python3-vt", "run.py", prop, "quick"], cwd=HERE, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_REPO=d))
            o = x.stdout.decode()
            print(id, "check", prop, x.returncode, "CAUGHT" if x.returncode == 1 and "VIOLATION property=" + prop in o else "MISSED",
                  "\n".join(l for l in o.splitlines() if l.startswith(("counterexample", "NO ANSWER", prop)))[:600], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)

"""Mutation campaign: python3-vt tools/mutate.py OUT.json FILE[:fraction] ...
Small changes to source files of /repo (in scratch copies under /tmp/mut); those that pass the
repository's tests are put before the quick checks of the properties anchored in the file. Survivors
are listed; each is either equivalent, outside the properties, or a gap."""
import ast, json, os, random, shutil, subprocess, sys, multiprocessing as mp, hashlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CHECKS = {
    "transcoder/audio.py": "S06 S04",
    "transcoder/colours.py": "C12 C06 C11 C10 C07",
    "transcoder/frame_grabber.py": "T01 N03 T03 S05",
    "transcoder/machine.py": "S01 S02 S03 S04 S07",
    "transcoder/main.py": "T03",
    "transcoder/make_data_tables.py": "C11 C10 C09 C06",
    "transcoder/movie.py": "S07 S04 S01 S03 T03 S05",
    "transcoder/opcodes.py": "S02 S08 S01 S04 S03 S07",
    "transcoder/palette.py": "C11 T01 C09",
    "transcoder/screen.py": "C01 C03 C02 C09 E02 E01 E03 E04 E05 C05 C06 C04 C08 C07 T01",
    "transcoder/symbol_table.py": "S08 S02",
    "transcoder/video.py": "E02 E01 E03 E04 E05 S03 S05",
    "transcoder/video_mode.py": "S01 S02 T01 T03",
    "simulator/apple2.py": "M03 M02 M01 M05 M04",
    "simulator/machine.py": "M03 M02 M05",
    "simulator/memory.py": "M03 M05 M01",
    "simulator/uthernet.py": "M01 M04 M03",
    "server/server.py": "T02",
}
BIN = {ast.Add: "-", ast.Sub: "+", ast.LShift: ">>", ast.RShift: "<<", ast.BitAnd: "|", ast.BitOr: "&", ast.Mult: "+",
       ast.FloorDiv: "*", ast.Div: "*", ast.Mod: "+", ast.BitXor: "|"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in",
       ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}


def mutants(src):
    """[(start, end, replacement, description)]"""
    t = ast.parse(src)
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    text = lambda n: b[slice(*pos(n))].decode()
    out = []

    def add(n, new, kind):
        s, e = pos(n)
        out.append((s, e, new, "%d: %s: %s -> %s" % (n.lineno, kind, text(n)[:60].replace("\n", " "), new[:60].replace("\n", " "))))
    docs = set()
    skip = set()
    for n in ast.walk(t):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0]); docs.add(n.body[0].value)
        for f in ("annotation", "returns"):
            x = getattr(n, f, None)
            if x is not None:
                skip |= set(ast.walk(x))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") in ("print", "Log"):
            skip |= set(ast.walk(n))
        if isinstance(n, ast.Raise):
            skip |= set(x for x in ast.walk(n) if isinstance(x, (ast.Constant, ast.BinOp)))
        if isinstance(n, ast.FunctionDef) and n.name == "__init__":
            for x in n.args.defaults:      # every caller gives them
                skip |= set(ast.walk(x))
        if isinstance(n, ast.Assert):
            skip |= set(ast.walk(n))
    for n in ast.walk(t):
        if n in docs or n in skip:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.Constant,)) or \
                isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left.value if isinstance(n.left, ast.Constant) else 0, str):
            add(n, "(%s) %s (%s)" % (text(n.left), BIN[type(n.op)], text(n.right)), "op")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, "(%s) %s (%s)" % (text(n.left), CMP[type(n.ops[0])], text(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join("(%s)" % text(v) for v in n.values) + ")", "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            add(n, text(n.operand), "unary")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), "const")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "const")
                if n.value:
                    add(n, str(n.value - 1), "const")
            elif isinstance(n.value, float):
                add(n, repr(n.value * 1.5 + 0.5), "const")
        elif isinstance(n, (ast.If, ast.While)):
            add(n.test, "(not (%s))" % text(n.test), "negate")
        elif isinstance(n, ast.IfExp):
            add(n.test, "(not (%s))" % text(n.test), "negate")
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(n, "pass", "drop")
        elif isinstance(n, (ast.AugAssign,)):
            add(n, "pass", "drop")
        elif isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
            add(n, "pass", "drop")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "drop")
        elif isinstance(n, ast.Expr) and isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            add(n, "pass", "drop")
        elif isinstance(n, (ast.Raise,)):
            add(n, "pass", "drop")
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.BinOp):
            add(n.value, text(n.value.left), "left only")
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    s, e = pos(n)
                    args = [text(a) for a in n.args] + ["%s%s" % (x.arg + "=" if x.arg else "**", text(x.value)) for x in n.keywords if x is not k]
                    out.append((s, e, "%s(%s)" % (text(n.func), ", ".join(args)), "%d: keyword %s dropped: %s" % (n.lineno, k.arg, text(n)[:60].replace("\n", " "))))
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                s, e = pos(n)
                out.append((s, e, "%s(%s)" % (text(n.func), ", ".join([text(n.args[1]), text(n.args[0])] + [
                    "%s%s" % (x.arg + "=" if x.arg else "**", text(x.value)) for x in n.keywords])),
                    "%d: arguments swapped: %s" % (n.lineno, text(n)[:60].replace("\n", " "))))
    seen, res = set(), []
    for m in out:
        k = m[:3]
        if k in seen or b[m[0]:m[1]].decode() == m[2]:
            continue
        seen.add(k)
        try:
            ast.parse(b[:m[0]].decode() + m[2] + b[m[1]:].decode())
        except SyntaxError:
            continue
        res.append(m)
    return res


def work(job):
    f, m, w = job
    d = "/tmp/mut/%d" % os.getpid()
    w0, w = w, "/tmp/mut/%d0" % os.getpid()
    if not os.path.isdir(w):
        shutil.copytree(w0, w)
    if not os.path.isdir(d):
        subprocess.run(["cp", "-a", "/repo", d], check=True)
    p = os.path.join(d, f)
    src = open(os.path.join("/repo", f), "rb").read()
    open(p, "wb").write(src[:m[0]] + m[2].encode() + src[m[1]:])
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    try:
        if f.startswith("transcoder") and not f.endswith(("movie.py", "main.py", "audio.py", "machine.py")):
            try:
                x = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--rootdir=" + d, "--timeout=100",
                                    "--continue-on-collection-errors", "--tb=line", "transcoder"], cwd=d, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, env=env, timeout=240)
                tail = x.stdout.decode().strip().splitlines()[-1]
            except (subprocess.TimeoutExpired, IndexError):
                tail = "timeout"
            if "41 passed" not in tail:
                return f, m[3], "tests"
        r = []
        for c in CHECKS[f].split():
            try:
                x = subprocess.run(["python3-vt", "run.py", c, "quick"], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   env=dict(env, VERIF_REPO=d, VERIF_JOBS="2"), timeout=600)
                rc = x.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            if rc == 1:
                return f, m[3], "caught " + c + (" after " + " ".join(r) if r else "")
            if rc != 0:
                r.append("%s:%s" % (c, rc))
        return f, m[3], "NO ANSWER " + " ".join(r) if r else "SURVIVED"
    finally:
        open(p, "wb").write(src)


if __name__ == "__main__":
    jobs = []
    # work from a copy of /verif, so that it may be edited meanwhile
    w = "/tmp/mut/verif"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/mut", exist_ok=True)
    shutil.copytree(HERE, w, ignore=shutil.ignore_patterns(".git", "out", "evidence", "seeded", "replay/__pycache__"))
    for d in ("out", "evidence"):
        os.makedirs(os.path.join(w, d))
    rng = random.Random(int(os.environ.get("SEED", "1")))
    for a in sys.argv[2:]:
        f, _, frac = a.partition(":")
        ms = mutants(open(os.path.join("/repo", f)).read())
        if frac:
            ms = rng.sample(ms, int(len(ms) * float(frac)))
        jobs += [(f, m, w) for m in ms]
        print(f, len(ms), flush=True)
    if os.environ.get("LIST"):
        sys.exit()
    res = []
    with mp.Pool(int(os.environ.get("N", "5"))) as pool:
        for i, r in enumerate(pool.imap_unordered(work, jobs)):
            res.append(r)
            if not r[2].startswith("tests") or i % 20 == 0:
                print(i, *r, flush=True)
            json.dump(res, open(sys.argv[1], "w"), indent=0)
    for d in os.listdir("/tmp/mut"):
        if d.isdigit():
            shutil.rmtree("/tmp/mut/" + d)

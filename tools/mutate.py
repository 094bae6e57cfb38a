"""Mutation campaign (development only): make small changes to the library, keep those the test suite passes, and see
which checks notice.   mutate.py list | run FROM TO STEP PROCS"""
import ast, json, os, random, shutil, subprocess, sys, tempfile, concurrent.futures as cf

REPO = "/repo"
OUT = os.environ.get("MUT_OUT", "/tmp/mut")
PY = "/opt/venv/bin/python"


def muts(rel):
    src = open(os.path.join(REPO, rel), encoding="utf-8", newline="").read()
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    tree = ast.parse(src)
    out = []

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def add(s, e, new, line, fn):
        out.append((rel, s, e, new, line, fn))

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef,)):
            fn = (fn + "." if fn else "") + n.name
            kids = n.body + n.args.defaults
        elif isinstance(n, ast.ClassDef):
            fn = n.name
            kids = n.body
        else:
            kids = list(ast.iter_child_nodes(n))
        infn = fn and "." in fn
        if infn and isinstance(n, ast.Compare) and len(n.ops) == 1:
            s, e = pos(n.left)[1], pos(n.comparators[0])[0]
            op = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}.get(type(n.ops[0]))
            if op:
                add(s, e, " " + op + " ", n.lineno, fn)
        if infn and isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mod)):
            s, e = pos(n.left)[1], pos(n.right)[0]
            t = b[s:e].decode()
            if t.strip() in "+-":
                add(s, e, " - " if t.strip() == "+" else " + ", n.lineno, fn)
        if infn and isinstance(n, ast.BoolOp):
            s, e = pos(n.values[0])[1], pos(n.values[1])[0]
            add(s, e, " and " if isinstance(n.op, ast.Or) else " or ", n.lineno, fn)
        if infn and isinstance(n, ast.Constant) and not isinstance(n.value, bool):
            s, e = pos(n)
            if isinstance(n.value, int):
                add(s, e, str(n.value + 1), n.lineno, fn)
                if n.value > 0:
                    add(s, e, str(n.value - 1), n.lineno, fn)
            elif isinstance(n.value, str) and n.value and len(n.value) < 20 and b[s:s + 1] in b"'\"" and b[s:s + 3] not in (b'"""', b"'''"):
                add(s, e, repr(n.value + "x"), n.lineno, fn)
        if not infn and isinstance(n, ast.Constant) and isinstance(n.value, int) and n.value < 10 ** 9:
            add(pos(n)[0], pos(n)[1], str(n.value + 1), n.lineno, (fn or "") + ".<table>")
        if not infn and isinstance(n, ast.Constant) and isinstance(n.value, str) and b[pos(n)[0]:pos(n)[0] + 3] not in (b'"""', b"'''"):
            s, e = pos(n)
            v = n.value
            if len(v) > 200:
                r = random.Random(rel)
                for _ in range(12):
                    i = r.randrange(len(v))
                    add(s, e, repr(v[:i] + v[(i + 7) % len(v)] + v[i + 1:]), n.lineno, (fn or "") + ".<table>")
            elif v:
                add(s, e, repr(v + "x"), n.lineno, (fn or "") + ".<table>")
        if infn and isinstance(n, ast.If):
            s, e = pos(n.test)
            add(s, e, "False", n.lineno, fn)
        for k in kids:
            visit(k, fn)
    visit(tree, "")
    return out


def all_muts():
    out = []
    r = random.Random(5)
    for d, _, fs in sorted(os.walk(REPO + "/lunar_python")):
        for f in sorted(fs):
            if f.endswith(".py"):
                m = muts(os.path.relpath(os.path.join(d, f), REPO))
                t = [x for x in m if x[5].endswith("<table>")]
                if os.environ.get("MUT_CODE") and "ShouXing" in f:
                    continue
                out += [x for x in m if not x[5].endswith("<table>")]
                if not os.environ.get("MUT_CODE"):
                    out += r.sample(t, min(len(t), 60))
    return out


LINES = {}
for f in os.listdir("/tmp/lines"):
    LINES[f] = json.load(open("/tmp/lines/" + f))


def reach(rel, line, fn):
    rel = rel[len("lunar_python/"):]
    out = []
    for c, d in LINES.items():
        if any(k.startswith(rel + ":") and line in v for k, v in d.items()):
            out.append(c)
    if not out:
        out = [c for c in LINES]
    cost = lambda c: (c in ("C25", "C26"), c in ("C28", "C14", "C16"), sum(len(v) for v in LINES[c].values()))
    return sorted(out, key=cost)


def sh(cmd, env=None, t=900):
    try:
        p = subprocess.run(cmd, shell=True, env=dict(os.environ, **(env or {})), capture_output=True, text=True, errors="replace", timeout=t)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 99, "timeout"


def one(i, m):
    rel, s, e, new, line, fn = m
    wt = tempfile.mkdtemp(prefix="mu_", dir="/tmp")
    res = {"i": i, "file": rel, "line": line, "fn": fn, "new": new[:60]}
    try:
        sh("cp -a /repo/lunar_python /repo/test %s/" % wt)
        p = os.path.join(wt, rel)
        b = open(p, "rb").read()
        res["old"] = b[s:e].decode()[:60]
        b2 = b[:s] + new.encode() + b[e:]
        open(p, "wb").write(b2)
        ls = b.split(b"\n")
        res["src"] = ls[line - 1].decode()[:160].strip()
        rc, o = sh("cd %s && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s timeout 60 %s -m pytest -q -x -p no:cacheprovider --rootdir=%s -o 'python_files=*Test.py test_*.py *_test.py' test 2>&1 | tail -2" % (wt, wt, PY, wt), t=90)
        if "passed" not in o or "failed" in o or "error" in o:
            res["verdict"] = "test"
            return res
        res["tried"] = []
        for c in reach(rel, line, fn):
            if c == "C25" or c == "C26":
                break
            rc, o = sh("cd /verif && timeout 300 %s -m rv %s quick 2>&1 | grep -v KNOWN | tail -3" % (PY, c), env={"VERIF_REPO": wt, "RV_PART": "14", "RV_PROCS": "1", "VERIF_SEED": "1"}, t=400)
            res["tried"].append(c)
            if "VIOLATION" in o or "Error" in o or "timeout" in o or "ERROR" in o:
                res["verdict"] = "caught " + c
                return res
        res["verdict"] = "SURVIVED"
        return res
    finally:
        shutil.rmtree(wt, ignore_errors=True)


def full(i, m):
    """all reaching checks with their whole quick tier"""
    rel, s, e, new, line, fn = m
    wt = tempfile.mkdtemp(prefix="mu_", dir="/tmp")
    try:
        sh("cp -a /repo/lunar_python %s/" % wt)
        p = os.path.join(wt, rel)
        b = open(p, "rb").read()
        open(p, "wb").write(b[:s] + new.encode() + b[e:])
        tried = []
        for c in reach(rel, line, fn):
            if c in ("C25", "C26"):
                break
            rc, o = sh("cd /verif && VERIF_NO_EVIDENCE=1 timeout 600 %s -m rv %s quick 2>&1 | grep -v KNOWN | tail -3" % (PY, c), env={"VERIF_REPO": wt, "VERIF_SEED": "1", "RV_PART": "1"})
            tried.append(c)
            if "VIOLATION" in o or "Error" in o or "timeout" in o or "ERROR" in o:
                return i, rel, line, fn, "caught " + c, o[-200:]
        return i, rel, line, fn, "SURVIVED", tried
    finally:
        shutil.rmtree(wt, ignore_errors=True)


def main():
    ms = all_muts()
    if sys.argv[1] == "full":
        random.Random(int(os.environ.get("MUT_SEED", "9"))).shuffle(ms)
        for i in map(int, sys.argv[2:]):
            print(*full(i, ms[i]), flush=True)
        return
    if sys.argv[1] == "list":
        import collections
        print(len(ms), collections.Counter(m[0] for m in ms).most_common())
        return
    a, z, st, procs = map(int, sys.argv[2:6])
    random.Random(int(os.environ.get("MUT_SEED", "9"))).shuffle(ms)
    os.makedirs(OUT, exist_ok=True)
    ids = list(range(a, min(z, len(ms)), st))
    with cf.ThreadPoolExecutor(procs) as ex, open(OUT + "/results.jsonl", "a") as f:
        for r in ex.map(lambda i: one(i, ms[i]), ids):
            f.write(json.dumps(r, ensure_ascii=False) + "\n")
            f.flush()


main()

"""Mutation campaign (development aid, not a check): random small faults in the files a property is anchored in, the property's quick check on each.

usage: mutate.py REPO OUT.tsv N SEED PROPERTY... ; works on scratch copies of REPO under /tmp, one per worker."""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo, outf, N, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
pids = sys.argv[5:]
W = int(os.environ.get("MUT_WORKERS", "4"))
SKIPFN = {"__repr__", "__str__", "plot", "printInit", "print"}
SWAPB = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
SWAPC = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is"}


def files(pid):
    for l in open(os.path.join(H, "properties.jsonl")):
        d = json.loads(l)
        if d["id"] == pid:
            out = []
            for f in d["anchors"]["files"]:
                p = os.path.join(repo, f)
                if os.path.isdir(p):
                    for r, _, fs in os.walk(p):
                        out += [os.path.join(r, x) for x in fs if x.endswith(".py") and x != "__init__.py"]
                elif os.path.exists(p):
                    out.append(p)
            return [os.path.relpath(f, repo) for f in out if "plot" not in f]
    raise KeyError(pid)


def seg(src, off, n):
    a = off[n.lineno - 1] + n.col_offset
    b = off[n.end_lineno - 1] + n.end_col_offset
    return a, b


def mutants(path):
    raw = open(os.path.join(repo, path), "rb").read()
    if b"@numba" in raw or b"jit(" in raw:
        pass
    tree = ast.parse(raw)
    off = [0]
    for l in raw.split(b"\n"):
        off.append(off[-1] + len(l) + 1)
    out = []

    def txt(n):
        a, b = seg(raw, off, n)
        return raw[a:b].decode()

    def rec(n, infn, kw=False):
        if isinstance(n, (ast.FunctionDef,)):
            if n.name in SKIPFN or n.name.startswith("plot"):
                return
            for d in n.body:
                if isinstance(d, ast.Expr) and isinstance(d.value, ast.Constant):
                    continue
                rec(d, True)
            return
        if isinstance(n, (ast.Raise, ast.Assert)):
            return
        if isinstance(n, ast.Call) and getattr(n.func, "attr", getattr(n.func, "id", "")) in ("warn", "print", "format", "deprecate_property", "validate_type"):
            return
        if isinstance(n, ast.JoinedStr):
            return
        if infn:
            def add(node, new, kind):
                a, b = seg(raw, off, node)
                out.append((path, node.lineno, kind, a, b, new, txt(node)))

            if isinstance(n, ast.BinOp) and type(n.op) in SWAPB and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                add(n, f"{txt(n.left)} {SWAPB[type(n.op)]} {txt(n.right)}", "op")
                if isinstance(n.op, (ast.Add, ast.Sub)):
                    add(n, f"({txt(n.left)})", "drop")
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAPC:
                add(n, f"{txt(n.left)} {SWAPC[type(n.ops[0])]} {txt(n.comparators[0])}", "cmp")
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
                add(n, f"({txt(n.operand)})", "neg")
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                add(n, f"({txt(n.operand)})", "not")
            if isinstance(n, ast.Attribute) and n.attr == "T":
                add(n, f"{txt(n.value)}", "noT")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "conj", "conjugate") and not n.args:
                add(n, f"{txt(n.func.value)}", "nocopy")
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool) and not kw:
                add(n, f"({n.value!r} + 1)" if isinstance(n.value, int) else f"({n.value!r} * 1.5)", "const")
            if isinstance(n, ast.Constant) and isinstance(n.value, bool):
                add(n, repr(not n.value), "bool")
            if isinstance(n, ast.BoolOp):
                op = " or " if isinstance(n.op, ast.And) else " and "
                add(n, op.join(f"({txt(v)})" for v in n.values), "boolop")
            if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub)):
                add(n, f"{txt(n.target)} {'-' if isinstance(n.op, ast.Add) else '+'}= {txt(n.value)}", "aug")
                add(n, f"{txt(n.target)} = {txt(n.value)}", "augset")
            if isinstance(n, ast.Delete) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                add(n, "pass", "delete")
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute):
                add(n, "pass", "noassign")
            if isinstance(n, ast.If) and not n.orelse and len(n.body) == 1:
                add(n.test, "False", "iffalse")
        for c in ast.iter_child_nodes(n):
            rec(c, infn)

    rec(tree, False)
    return raw, out


def run_one(job):
    pid, m = job
    path, line, kind, a, b, new, old = m
    d = copies.get()
    try:
        p = os.path.join(d, path)
        raw = open(p, "rb").read()
        mut = raw[:a] + new.encode() + raw[b:]
        try:
            compile(mut, p, "exec")
        except SyntaxError:
            return
        open(p, "wb").write(mut)
        try:
            env = dict(os.environ, VP_REPO=d, VP_JOBS="2", VP_FAILFAST="1", VERIF_SEED="1", PYTHONDONTWRITEBYTECODE="1")
            r = subprocess.run(["nice", "-n", "10", os.path.join(H, "check"), pid], env=env, capture_output=True, text=True, timeout=1200, cwd=H)
            o = r.stdout
            key = next((l.strip()[:150] for l in o.splitlines() if "broken:" in l), "") if r.returncode == 1 else o.strip().splitlines()[-1][:120] if r.returncode else ""
            st = {0: "SURVIVED", 1: "killed"}.get(r.returncode, f"rc{r.returncode}")
        except subprocess.TimeoutExpired:
            st, key = "timeout", ""
        finally:
            open(p, "wb").write(raw)
        with open(outf, "a") as f:
            f.write("\t".join([pid, st, f"{path}:{line}", kind, old.replace("\n", " ")[:160], new.replace("\n", " ")[:160], key]) + "\n")
    finally:
        copies.put(d)


copies = Queue()
base = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
for i in range(W):
    d = os.path.join(base, str(i))
    shutil.copytree(repo, d, ignore=shutil.ignore_patterns(".git", "docs", "tests", "tutorials", "examples"), symlinks=True)
    copies.put(d)
try:
    jobs = []
    for pid in pids:
        rng = random.Random(f"{seed}{pid}")
        allm = []
        for f in files(pid):
            _, ms = mutants(f)
            if ms:
                allm.append(ms)
        # files weighted by the square root of their size
        for _ in range(N):
            ms = rng.choices(allm, [len(x) ** 0.7 for x in allm])[0]
            jobs.append((pid, rng.choice(ms)))
    with ThreadPoolExecutor(W) as ex:
        list(ex.map(run_one, jobs))
finally:
    shutil.rmtree(base, ignore_errors=True)

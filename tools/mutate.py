#!/usr/bin/env python3
"""mutate.py tests OUT.jsonl [file ...] | checks OUT.jsonl RES.jsonl: plant small syntactic changes one at a
time in scratch copies of /repo; the first form records which of them the existing tests do not
notice, the second which of those the checks notice.  Survivors of both are read by hand."""
import ast, concurrent.futures as cf, copy, hashlib, json, os, random, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from refac import BY  # noqa: E402

SRC = "src/ellalgo"
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.MatMult: [],
       ast.Pow: [], ast.Mod: []}


def sites(tree):
    """(description, function(tree copy)) per mutation; nodes are addressed by walk order"""
    nodes = list(ast.walk(tree))
    parents, field = {}, {}
    for n in nodes:
        for f, v in ast.iter_fields(n):
            for k, c in enumerate(v if isinstance(v, list) else [v]):
                if isinstance(c, ast.AST):
                    parents[c], field[c] = n, (f, k if isinstance(v, list) else None)
    skip = set()
    for n in nodes:     # docstrings and annotations
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            skip.add(n); skip.add(n.value)
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if isinstance(a, ast.AST):
                skip.update(ast.walk(a))
    fn = {}
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            for c in ast.walk(n):
                fn[c] = n
    idx = {n: i for i, n in enumerate(nodes)}

    def repl(n, make):
        i = idx[n]

        def f(t):
            ns = list(ast.walk(t))
            m = ns[i]
            p = ns[idx[parents[n]]]
            fd, k = field[n]
            new = make(m)
            if k is None:
                setattr(p, fd, new)
            else:
                getattr(p, fd)[k] = new
        return f

    out = []
    add = lambda n, what, make: out.append(("%d: %s" % (getattr(n, "lineno", 0), what), repl(n, make)))
    for n in nodes:
        if n in skip or n not in fn and not isinstance(n, (ast.Constant,)):
            continue
        u = lambda x=n: ast.unparse(x)[:70]
        if isinstance(n, ast.Compare):
            for o in CMP.get(type(n.ops[0]), []):
                def mk(m, o=o):
                    m = copy.deepcopy(m); m.ops[0] = o(); return m
                add(n, "%s -> %s" % (u(), ast.unparse(mk(n))[:70]), mk)
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                def mk(m, o=o):
                    m = copy.deepcopy(m); m.op = o(); return m
                add(n, "%s -> %s" % (u(), ast.unparse(mk(n))[:70]), mk)
            add(n, "%s -> left" % u(), lambda m: m.left)
            add(n, "%s -> right" % u(), lambda m: m.right)
        elif isinstance(n, ast.UnaryOp):
            add(n, "%s -> operand" % u(), lambda m: m.operand)
        elif isinstance(n, ast.BoolOp):
            def mk(m):
                m = copy.deepcopy(m); m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And(); return m
            add(n, "%s -> and/or" % u(), mk)
            for k in range(len(n.values)):
                add(n, "%s -> operand %d" % (u(), k), lambda m, k=k: m.values[k])
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            v = n.value
            new = [not v] if isinstance(v, bool) else [v + 1, v - 1] if isinstance(v, int) else [v * 2 if v else 1e-3, v / 2 if v else -1e-3, 0.0]
            for w in new:
                add(n, "%r -> %r" % (v, w), lambda m, w=w: ast.Constant(w))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Assert, ast.AnnAssign)):
            add(n, "delete %s" % u(), lambda m: ast.Pass())
            if isinstance(n, ast.AugAssign):
                add(n, "%s out of place" % u(), lambda m: ast.Assign([copy.deepcopy(m.target)], ast.BinOp(ast.parse(ast.unparse(m.target), mode="eval").body, m.op, m.value), lineno=1))
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.BinOp) and ast.unparse(n.targets[0]) == ast.unparse(n.value.left):
                add(n, "%s in place" % u(), lambda m: ast.AugAssign(m.targets[0], m.value.op, m.value.right))
        elif isinstance(n, (ast.If, ast.IfExp)):
            for w in (True, False):
                def mk(m, w=w):
                    m = copy.copy(m); m.test = ast.Constant(w); return m
                add(n, "if %s -> %s" % (ast.unparse(n.test)[:60], w), mk)
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
                add(n, "%s -> receiver" % u(), lambda m: m.func.value)
            if len(n.args) == 1 and not n.keywords:
                add(n, "%s -> argument" % u(), lambda m: m.args[0])
            if len(n.args) == 2:
                def mk(m):
                    m = copy.copy(m); m.args = m.args[::-1]; return m
                add(n, "%s -> swapped" % u(), mk)
            for k in range(len(n.keywords)):
                def mk(m, k=k):
                    m = copy.copy(m); m.keywords = m.keywords[:k] + m.keywords[k + 1:]; return m
                add(n, "%s without %s" % (u(), n.keywords[k].arg), mk)
        elif isinstance(n, (ast.Continue, ast.Break)):
            add(n, "%s -> pass" % u(), lambda m: ast.Pass())
        elif isinstance(n, ast.Return) and n.value is not None:
            add(n, "%s -> None" % u(), lambda m: ast.Return(ast.Constant(None)))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and isinstance(fn.get(n), ast.FunctionDef):
            loc = sorted({a.arg for a in fn[n].args.args} | {c.id for c in ast.walk(fn[n]) if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store)})
            if n.id in loc:
                rng = random.Random("%s%d%d" % (n.id, n.lineno, n.col_offset))
                c = [x for x in loc if x not in (n.id, "self")]
                for x in rng.sample(c, min(2, len(c))):
                    add(n, "name %s -> %s" % (n.id, x), lambda m, x=x: ast.Name(x, ast.Load()))
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and ast.unparse(n.value) == "self":
            at = sorted({c.attr for c in nodes if isinstance(c, ast.Attribute) and isinstance(c.ctx, ast.Store) and ast.unparse(c.value) == "self"} - {n.attr})
            rng = random.Random("%s%d%d" % (n.attr, n.lineno, n.col_offset))
            for x in rng.sample(at, min(1, len(at))):
                add(n, "self.%s -> self.%s" % (n.attr, x), lambda m, x=x: ast.Attribute(ast.Name("self", ast.Load()), x, ast.Load()))
    return out


def mutants(root, path):
    src = open(os.path.join(root, SRC, path), newline="").read().replace("\r\n", "\n")
    tree = ast.parse(src)
    base = ast.unparse(tree)
    seen = {base}
    for what, f in sites(tree):
        t = ast.parse(src)
        f(t)
        ast.fix_missing_locations(t)
        try:
            new = ast.unparse(t)
            compile(new, path, "exec")
        except Exception:
            continue
        if new not in seen:
            seen.add(new)
            yield "%s:%s" % (path, what), path, new


def test_one(job):
    what, path, new = job
    W = tempfile.mkdtemp(prefix="mut.")
    try:
        subprocess.run("cp -a /repo/src /repo/tests /repo/benches /repo/pyproject.toml /repo/setup.cfg /repo/README* %s/ 2>/dev/null; cp /repo/*.ini /repo/conftest.py %s/ 2>/dev/null" % (W, W), shell=True)
        open(os.path.join(W, SRC, path), "w").write(new)
        env = dict(os.environ, PYTHONPATH=W + "/src", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                   HYPOTHESIS_STORAGE_DIRECTORY=W + "/hyp", PYTHONHASHSEED="0")
        py = ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "--hypothesis-profile=ci", "--benchmark-disable"]
        for extra in (["tests"], ["benches"], ["--doctest-modules", "src"]):
            try:
                r = subprocess.run(py + extra, cwd=W, env=env, capture_output=True, text=True, timeout=240)
            except subprocess.TimeoutExpired:
                return what, False
            if r.returncode not in (0, 5):
                return what, False
        return what, True
    finally:
        shutil.rmtree(W)


def check_one(what, path, new):
    W = tempfile.mkdtemp(prefix="mut.")
    try:
        subprocess.run(["cp", "-a", "/repo", W + "/repo"], check=True)
        open(os.path.join(W, "repo", SRC, path), "w").write(new)
        res = {}
        order = sorted(BY[os.path.basename(path)], key=lambda c: c in ("C14", "C15"))
        line = int(what.split(":")[1])
        for lo, c in ((127, "C02"), (199, "C03"), (294, "C05"), (337, "C06")) if path == "cutting_plane.py" else ():
            if line >= lo:
                order = [c] + [d for d in order if d != c]
        for c in order:
            try:
                r = subprocess.run(["python3-vt", V + "/check.py", c], capture_output=True, text=True, timeout=900,
                                   env=dict(os.environ, ELL_REPO=W + "/repo", ELL_EVIDENCE=W + "/ev", ELL_GRACE="0", VERIF_SEED="1", VERIF_TIER="quick"))
                res[c] = r.returncode
            except subprocess.TimeoutExpired:
                res[c] = "timeout"
            if res[c] == 1:
                break
        return res
    finally:
        shutil.rmtree(W)


def main():
    files = sys.argv[4:] if sys.argv[1] == "checks" else sys.argv[3:]
    files = files or sorted(os.path.relpath(os.path.join(d, f), "/repo/" + SRC) for d, _, fs in os.walk("/repo/" + SRC) for f in fs if f.endswith(".py"))
    jobs = [j for p in files for j in mutants("/repo", p)]
    if os.environ.get("NONAMES"):       # leave out exchanged variables
        jobs = [j for j in jobs if ": name " not in j[0] and ": self." not in j[0]]
    if sys.argv[1] == "count":
        print(len(jobs), {p: sum(j[1] == p for j in jobs) for p in files})
    elif sys.argv[1] == "tests":
        done = {json.loads(l)["what"] + json.loads(l)["h"] for l in open(sys.argv[2])} if os.path.exists(sys.argv[2]) else set()
        H = lambda j: hashlib.sha1(j[2].encode()).hexdigest()[:10]
        todo = [j for j in jobs if j[0] + H(j) not in done]
        with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex, open(sys.argv[2], "a") as o:
            for j, (w, ok) in zip(todo, ex.map(test_one, todo)):
                o.write(json.dumps({"what": w, "h": H(j), "survives": ok}) + "\n")
                o.flush()
    else:
        H = lambda j: hashlib.sha1(j[2].encode()).hexdigest()[:10]
        by = {j[0] + H(j): j for j in jobs}
        done = {json.loads(l)["what"] + json.loads(l)["h"] for l in open(sys.argv[3])} if os.path.exists(sys.argv[3]) else set()
        with open(sys.argv[3], "a") as o:
            for l in open(sys.argv[2]):
                d = json.loads(l)
                k = d["what"] + d["h"]
                if d["survives"] and k in by and k not in done:
                    d["checks"] = check_one(*by[k])
                    d["caught"] = 1 in d["checks"].values()
                    o.write(json.dumps(d) + "\n")
                    o.flush()


if __name__ == "__main__":
    main()

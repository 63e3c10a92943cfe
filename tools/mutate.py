"""Mutation survey: mutate.py ID FILE[:FUNC[,FUNC]] ...   -> list of mutants of those functions that check ID does not report.
Works on scratch copies under /tmp/mut_<pid>; development tool only, not a registered check."""
import ast, copy, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("BASE", "/repo")
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
       ast.In: ast.NotIn, ast.NotIn: ast.In}
CMP2 = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.FloorDiv: ast.Mult,
       ast.LShift: ast.RShift, ast.RShift: ast.LShift}
CALL = {"min": "max", "max": "min", "minimum": "maximum", "maximum": "minimum", "sin": "cos", "cos": "sin", "amin": "amax", "amax": "amin", "any": "all",
        "all": "any", "zeros": "ones", "ones": "zeros", "repeat_interleave": "repeat", "mean": "sum", "argmin": "argmax", "cumsum": "cumprod"}


def doc(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str)


def points(fn):
    """(description, path) of mutations; path = (list of field steps), applied to a deep copy."""
    out = []
    locs = sorted({n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})

    def visit(n, path, inlog=False):
        if isinstance(n, ast.Call):
            t = ast.unparse(n.func)
            if t.startswith(("log.", "logging.", "print")) or t in ("isinstance",):
                return
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = type(n.ops[0])
            if o in CMP:
                out.append((n.lineno, f"{ast.unparse(n)} -> {CMP[o].__name__}", path, ("cmp", CMP[o])))
            if o in CMP2:
                out.append((n.lineno, f"{ast.unparse(n)} -> {CMP2[o].__name__}", path, ("cmp", CMP2[o])))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            out.append((n.lineno, f"{ast.unparse(n)[:60]} -> {BIN[type(n.op)].__name__}", path, ("bin", BIN[type(n.op)])))
        if isinstance(n, ast.BoolOp):
            out.append((n.lineno, f"{ast.unparse(n)[:60]} flip and/or", path, ("bool",)))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            out.append((n.lineno, f"{ast.unparse(n)[:60]} drop unary", path, ("un",)))
        if isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not Ellipsis:
            v = n.value
            if isinstance(v, bool):
                out.append((n.lineno, f"{v} -> {not v}", path, ("const", not v)))
            elif isinstance(v, int):
                out.append((n.lineno, f"{v} -> {v + 1}", path, ("const", v + 1)))
                if v:
                    out.append((n.lineno, f"{v} -> {v - 1}", path, ("const", v - 1)))
            elif isinstance(v, float):
                out.append((n.lineno, f"{v} -> {v * 2 + 0.5}", path, ("const", v * 2 + 0.5)))
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "indices":
            out.append((n.lineno, f"{ast.unparse(n)} +1", path, ("inc",)))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in CALL:
            out.append((n.lineno, f"{ast.unparse(n)[:60]} -> {CALL[n.func.attr]}", path, ("call", CALL[n.func.attr])))
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            out.append((n.lineno, f"{ast.unparse(n)[:60]} swap args 0/1", path, ("swapargs",)))
        if isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                if k.arg and k.arg not in ("device", "dtype"):
                    for j, k2 in enumerate(n.keywords):
                        if j > i and k2.arg and k2.arg not in ("device", "dtype") and type(k.value) is type(k2.value) and ast.dump(k.value) != ast.dump(k2.value):
                            out.append((n.lineno, f"{ast.unparse(n.func)} swap kw {k.arg}/{k2.arg}", path, ("swapkw", i, j)))
                            break
        if isinstance(n, (ast.List, ast.Tuple)) and len(n.elts) >= 2 and isinstance(n.ctx, ast.Load) and ast.dump(n.elts[0]) != ast.dump(n.elts[1]):
            out.append((n.lineno, f"{ast.unparse(n)[:60]} swap elts", path, ("swapelts",)))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in locs and len(locs) > 1:
            r = random.Random(n.lineno * 1000 + n.col_offset)
            if r.random() < 0.35:
                o = r.choice([x for x in locs if x != n.id])
                out.append((n.lineno, f"{n.id} -> {o}", path, ("name", o)))
        if isinstance(n, ast.IfExp):
            out.append((n.lineno, f"{ast.unparse(n)[:60]} swap branches", path, ("ifexp",)))
        for f, v in ast.iter_fields(n):
            if f in ("annotation", "returns", "decorator_list", "args") and not isinstance(n, ast.Call):
                continue
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        if f in ("body", "orelse") and isinstance(x, ast.stmt) and not doc(x) and not isinstance(x, (ast.Return, ast.FunctionDef, ast.Raise)) \
                                and not (isinstance(x, ast.Expr) and ast.unparse(x).startswith("log.")) and not (isinstance(x, ast.Assign) and "get_device" in ast.unparse(x)):
                            out.append((x.lineno, f"drop: {ast.unparse(x).splitlines()[0][:70]}", path + ((f, i),), ("drop",)))
                        visit(x, path + ((f, i),))
            elif isinstance(v, ast.AST):
                visit(v, path + ((f, None),))
    visit(fn, ())
    return out


def get(n, path):
    for f, i in path:
        n = getattr(n, f)
        if i is not None:
            n = n[i]
    return n


def apply(fn, path, m):
    n = get(fn, path)
    k = m[0]
    if k == "cmp":
        n.ops[0] = m[1]()
    elif k == "bin":
        n.op = m[1]()
    elif k == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif k == "const":
        n.value = m[1]
    elif k == "call":
        n.func.attr = m[1]
    elif k == "swapargs":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif k == "swapkw":
        n.keywords[m[1]].value, n.keywords[m[2]].value = n.keywords[m[2]].value, n.keywords[m[1]].value
    elif k == "swapelts":
        n.elts[0], n.elts[1] = n.elts[1], n.elts[0]
    elif k == "name":
        n.id = m[1]
    elif k == "ifexp":
        n.body, n.orelse = n.orelse, n.body
    else:
        par = get(fn, path[:-1])
        f, i = path[-1]
        if k == "un":
            new = n.operand
        elif k == "inc":
            new = ast.BinOp(n, ast.Add(), ast.Constant(1))
        elif k == "drop":
            new = ast.Pass()
        if i is None:
            setattr(par, f, new)
        else:
            getattr(par, f)[i] = new


def funcs(tree, names):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef,)) and (not names or n.name in names):
            yield n


def main():
    ids = sys.argv[1].split(",")
    lim = int(os.environ.get("LIMIT", "100000"))
    jobs = []
    for spec in sys.argv[2:]:
        file, _, fs = spec.partition(":")
        src = open(f"{BASE}/artist/{file}").read()
        tree = ast.parse(src)
        for fn in funcs(tree, set(fs.split(",")) if fs else None):
            for line, d, path, m in points(fn):
                t = copy.deepcopy(tree)
                f2 = next(n for n in ast.walk(t) if isinstance(n, ast.FunctionDef) and n.name == fn.name and n.lineno == fn.lineno)
                try:
                    apply(f2, path, m)
                    ast.fix_missing_locations(t)
                    out = ast.unparse(t)
                except Exception as e:
                    continue
                jobs.append((file, fn.name, line, d, out))
    random.Random(int(os.environ.get("SEED", "1"))).shuffle(jobs)
    jobs = sorted(jobs[:lim], key=lambda j: (j[0], j[2]))
    root = tempfile.mkdtemp(prefix="mut_")
    W = int(os.environ.get("W", "8"))
    import queue
    q = queue.Queue()
    for w in range(W):
        shutil.copytree(f"{BASE}/artist", f"{root}/{w}/artist", ignore=shutil.ignore_patterns("__pycache__"))
        q.put(w)

    def run(j):
        w = q.get()
        try:
            p = f"{root}/{w}/artist/{j[0]}"
            old = open(p).read()
            open(p, "w").write(j[4])
            res = []
            for i in ids:
                t0 = time.time()
                r = subprocess.run(["timeout", "200", sys.executable, f"{V}/check.py", i], env=dict(os.environ, VERIF_REPO=f"{root}/{w}", VERIF_EVIDENCE=f"{root}/{w}/ev"),
                                   capture_output=True, text=True, cwd=V)
                if time.time() - t0 > 60:
                    print(f"SLOW {time.time() - t0:.0f}s rc={r.returncode} {j[0]}:{j[1]}:{j[2]} {j[3]}", flush=True)
                res.append(r.returncode)
                if r.returncode == 1:
                    break
            open(p, "w").write(old)
            return res
        finally:
            q.put(w)
    with ThreadPoolExecutor(W) as ex:
        rs = list(ex.map(run, jobs))
    shutil.rmtree(root)
    c = [0, 0, 0]
    for j, r in zip(jobs, rs):
        k = 1 if 1 in r else 2 if 2 in r else 0
        c[k] += 1
        if k != 1:
            print("SURVIVED" if k == 0 else "NOANSWER", f"{j[0]}:{j[1]}:{j[2]} {j[3]}")
    print(f"{len(jobs)} mutants: caught {c[1]}, survived {c[0]}, no answer {c[2]}")


main()

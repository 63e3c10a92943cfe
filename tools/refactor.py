"""Refactoring survey: refactor.py ID[,ID] FILE[:FUNC,...] ...  applies behaviour-preserving rewrites on scratch copies and reports
checks that do not stay quiet.  Development tool only."""
import ast, builtins, copy, os, random, shutil, subprocess, sys, tempfile, queue
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("BASE", "/repo")
PURE_METH_BAN = ("append", "extend", "pop", "add_", "copy_", "step", "backward", "zero_grad", "update", "info", "warning", "debug", "error", "index_add_",
                 "scatter_add_", "index_put_", "create_dataset", "create_group", "all_reduce", "barrier")


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def locals_of(fn):
    a = {x.arg for x in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
    comp = set()
    return a, names(fn, ast.Store) - a


def has(n, *kinds):
    return any(isinstance(x, kinds) for x in ast.walk(n))


def impure(n):
    for x in ast.walk(n):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and (x.func.attr in PURE_METH_BAN or x.func.attr.endswith("_")):
            return True
        if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
            return True
        if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
            return True
    return False


def blocks(fn):
    for n in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def is_doc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


class T:
    """Transforms: each yields (desc, thunk) thunks mutate the copied function in place (module given)."""


def t_rename(mod, fn, R):
    _, loc = locals_of(fn)
    if any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(fn)) or not loc:
        return
    def go():
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id += "_r"
            if isinstance(x, ast.ExceptHandler) and x.name in loc:
                x.name += "_r"
    yield "rename locals", go


def t_hoist(mod, fn, R):
    for par, f, b in list(blocks(fn)):
        for i, s in enumerate(b):
            if not isinstance(s, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)) or is_doc(s) or s.value is None:
                continue
            cands = []
            def walk(n, top):
                if isinstance(n, (ast.Lambda, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp, ast.IfExp, ast.BoolOp)):
                    return
                if not top and isinstance(n, (ast.Call, ast.BinOp, ast.Subscript, ast.Compare)) and not impure(n):
                    cands.append(n)
                for x in ast.iter_child_nodes(n):
                    if isinstance(x, ast.expr) or isinstance(x, ast.keyword):
                        walk(x, False)
            walk(s.value, not isinstance(s, ast.Return))
            for c in R.sample(cands, min(1, len(cands))):
                def go(b=b, s=s, c=c):
                    tmp = f"tmp_{c.lineno}_{c.col_offset}"
                    class Sub(ast.NodeTransformer):
                        def generic_visit(self, n):
                            if n is c:
                                return ast.Name(tmp, ast.Load())
                            return super().generic_visit(n)
                    new = ast.Assign([ast.Name(tmp, ast.Store())], c)
                    s.value = Sub().visit(s.value)
                    b.insert(b.index(s), new)
                yield f"hoist {ast.unparse(c)[:50]}", go


def t_ifflip(mod, fn, R):
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            def go(n=n):
                n.test = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) else ast.UnaryOp(ast.Not(), n.test)
                n.body, n.orelse = n.orelse, n.body
            yield f"flip if {n.lineno}", go


def t_extract(mod, fn, R):
    par, loc = locals_of(fn)
    allv = par | loc
    for p, f, b in list(blocks(fn)):
        start = 1 if p is fn and is_doc(b[0]) else 0
        for _ in range(3):
            if len(b) - start < 2:
                break
            i = R.randrange(start, len(b))
            j = min(len(b), i + R.randint(1, 6))
            sl = b[i:j]
            if any(has(s, ast.Return, ast.Yield, ast.YieldFrom, ast.Break, ast.Continue, ast.FunctionDef, ast.Global, ast.Nonlocal, ast.Raise) for s in sl):
                continue
            top = set()
            for s in sl:
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        top |= names(t, ast.Store)
                if isinstance(s, ast.With):
                    for q in s.body:
                        if isinstance(q, ast.Assign):
                            for t in q.targets:
                                top |= names(t, ast.Store)
            cv = set()
            for s in sl:
                for x in ast.walk(s):
                    if isinstance(x, ast.comprehension):
                        cv |= names(x.target)
            w = set().union(*[names(s, ast.Store) for s in sl]) - cv
            r = set().union(*[names(s, ast.Load) for s in sl]) & allv - cv
            pre = set(par)
            # definitely assigned before: stores of earlier statements of enclosing top-level (approximation: straight-line stores)
            for q in fn.body:
                if q.lineno >= sl[0].lineno:
                    break
                if isinstance(q, ast.Assign):
                    for t in q.targets:
                        pre |= names(t, ast.Store)
            for q in b[:i]:
                if isinstance(q, ast.Assign):
                    for t in q.targets:
                        pre |= names(t, ast.Store)
            if isinstance(p, ast.For):
                pre |= names(p.target)
            if not w <= top | pre:
                continue
            used_later = set()
            for x in ast.walk(fn):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and (x.lineno > sl[-1].end_lineno or not (sl[0].lineno <= x.lineno <= sl[-1].end_lineno)):
                    used_later.add(x.id)
            # names read before being written in the slice
            first = set()
            wr = set()
            for s in sl:
                if isinstance(s, (ast.Assign,)):
                    first |= names(s.value, ast.Load) & allv - wr - cv
                    for t in s.targets:
                        first |= names(t, ast.Load) & allv - wr
                        wr |= names(t, ast.Store)
                else:
                    first |= (names(s, ast.Load) | (names(s, ast.Store) & pre)) & allv - wr - cv
            if not first <= pre | loc:
                continue
            if any(x not in pre for x in first):
                continue
            outs = sorted(w & used_later)
            ins = sorted(first)
            if any(x == "super" for s in sl for x in names(s)):
                continue
            def go(b=b, i=i, sl=sl, ins=ins, outs=outs):
                nm = f"_extracted_{sl[0].lineno}"
                ret = [ast.Return(ast.Tuple([ast.Name(o, ast.Load()) for o in outs], ast.Load()) if len(outs) != 1 else ast.Name(outs[0], ast.Load()))] if outs else []
                helper = ast.FunctionDef(name=nm, args=ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in ins], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                         body=list(sl) + ret, decorator_list=[], returns=None, type_params=[])
                call = ast.Call(ast.Name(nm, ast.Load()), [ast.Name(x, ast.Load()) for x in ins], [])
                st = ast.Assign([ast.Tuple([ast.Name(o, ast.Store()) for o in outs], ast.Store()) if len(outs) != 1 else ast.Name(outs[0], ast.Store())], call) if outs else ast.Expr(call)
                k = b.index(sl[0])
                b[k:k + len(sl)] = [st]
                pos = next(q for q, s in enumerate(mod.body) if s is fn or any(x is fn for x in ast.walk(s)))
                mod.body.insert(pos, helper)
            yield f"extract {sl[0].lineno}-{sl[-1].end_lineno}", go


def t_swap(mod, fn, R):
    for p, f, b in list(blocks(fn)):
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and isinstance(t, ast.Assign) and not impure(s) and not impure(t):
                ws, wt = names(s, ast.Store), names(t, ast.Store)
                rs, rt = names(s, ast.Load), names(t, ast.Load)
                if ws & (wt | rt) or wt & rs:
                    continue
                def go(b=b, s=s, t=t):
                    k = b.index(s)
                    b[k], b[k + 1] = t, s
                yield f"swap {s.lineno},{t.lineno}", go


def t_kw(mod, fn, R):
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and len(n.keywords) >= 2 and all(k.arg for k in n.keywords):
            def go(n=n):
                n.keywords.reverse()
            yield f"kw order {n.lineno}", go


def t_cmp(mod, fn, R):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in M:
            def go(n=n):
                n.left, n.comparators[0] = n.comparators[0], n.left
                n.ops[0] = M[type(n.ops[0])]()
            yield f"cmp {n.lineno}", go


def t_commute(mod, fn, R):
    for n in ast.walk(fn):
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult, ast.BitAnd, ast.BitOr)):
            def go(n=n):
                n.left, n.right = n.right, n.left
            yield f"commute {n.lineno}", go


def t_retvar(mod, fn, R):
    for p, f, b in list(blocks(fn)):
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                def go(b=b, s=s):
                    k = b.index(s)
                    b[k:k + 1] = [ast.Assign([ast.Name("result_value", ast.Store())], s.value), ast.Return(ast.Name("result_value", ast.Load()))]
                yield f"retvar {s.lineno}", go


def t_ternary(mod, fn, R):
    for p, f, b in list(blocks(fn)):
        for s in b:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.IfExp):
                def go(b=b, s=s):
                    k = b.index(s)
                    b[k] = ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)], [ast.Assign(copy.deepcopy(s.targets), s.value.orelse)])
                yield f"ternary->if {s.lineno}", go
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) for x in s.body + s.orelse) \
                    and s.body[0].targets[0].id == s.orelse[0].targets[0].id:
                def go(b=b, s=s):
                    k = b.index(s)
                    b[k] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
                yield f"if->ternary {s.lineno}", go


def t_comp(mod, fn, R):
    for p, f, b in list(blocks(fn)):
        for s in b:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
                g = s.value.generators[0]
                if names(g.target) & (names(fn) - names(s)):
                    continue
                def go(b=b, s=s, g=g):
                    k = b.index(s)
                    v = s.targets[0].id
                    body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(v, ast.Load()), "append", ast.Load()), [s.value.elt], []))]
                    for c in reversed(g.ifs):
                        body = [ast.If(c, body, [])]
                    b[k:k + 1] = [ast.Assign(s.targets, ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
                yield f"comp->loop {s.lineno}", go


def t_enum(mod, fn, R):
    for n in ast.walk(fn):
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "enumerate" and len(n.iter.args) == 1 \
                and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name) and isinstance(n.iter.args[0], (ast.Name, ast.Attribute)):
            if "loader" in ast.unparse(n.iter):
                continue
            def go(n=n):
                xs = n.iter.args[0]
                i = n.target.elts[0].id
                n.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [xs], [])], [])
                n.body.insert(0, ast.Assign([n.target.elts[1]], ast.Subscript(copy.deepcopy(xs), ast.Name(i, ast.Load()), ast.Load())))
                n.target = ast.Name(i, ast.Store())
            yield f"enumerate->range {n.lineno}", go
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range" and len(n.iter.args) == 1 \
                and isinstance(n.target, ast.Name) and not has(n, ast.Continue):
            def go(n=n):
                i = n.target.id
                for p, f, b in blocks(fn):
                    if n in b:
                        k = b.index(n)
                        w = ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [n.iter.args[0]]),
                                      n.body + [ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])
                        b[k:k + 1] = [ast.Assign([ast.Name(i, ast.Store())], ast.Constant(0)), w]
                        return
            yield f"range->while {n.lineno}", go


def t_continue(mod, fn, R):
    for n in ast.walk(fn):
        if isinstance(n, (ast.For, ast.While)) and n.body and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
            def go(n=n):
                s = n.body[-1]
                n.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Continue()], [])] + s.body
            yield f"continue {n.lineno}", go


def t_noop(mod, fn, R):
    b = fn.body
    k = R.randrange(1 if is_doc(b[0]) and len(b) > 1 else 0, len(b))
    def go():
        fn.body.insert(k, ast.Assign([ast.Name("_unused", ast.Store())], ast.Constant(None)))
    yield "no-op", go


def t_method(mod, fn, R):
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "torch" and n.func.attr in (
                "sum", "mean", "norm", "abs", "exp", "sqrt", "cos", "sin", "clamp", "square") and n.args:
            def go(n=n):
                x = n.args.pop(0)
                n.func = ast.Attribute(x, n.func.attr, ast.Load())
            yield f"torch.f->method {n.lineno}", go
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("sum", "mean", "clamp", "abs", "exp", "unsqueeze", "reshape", "norm", "repeat_interleave") \
                and not (isinstance(n.func.value, ast.Name) and n.func.value.id in ("torch", "math", "np")):
            if n.func.attr == "reshape" and not (len(n.args) == 1 and isinstance(n.args[0], ast.Tuple)):
                continue
            def go(n=n):
                n.args.insert(0, n.func.value)
                n.func = ast.Attribute(ast.Name("torch", ast.Load()), n.func.attr, ast.Load())
            yield f"method->torch.f {n.lineno}", go


def t_demorgan(mod, fn, R):
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and isinstance(n.test, ast.BoolOp):
            def go(n=n):
                t = n.test
                n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(t.op, ast.And) else ast.And(), [ast.UnaryOp(ast.Not(), v) for v in t.values]))
            yield f"demorgan {n.lineno}", go
        if isinstance(n, ast.If) and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            def go(n=n):
                t = n.test
                n.test = t.values[0]
                n.body = [ast.If(ast.BoolOp(ast.And(), t.values[1:]) if len(t.values) > 2 else t.values[1], n.body, [])]
            yield f"nest if {n.lineno}", go


def t_inline(mod, fn, R):
    """Inline a local assigned once and used once, in the statement right after its definition."""
    for p, f, b in list(blocks(fn)):
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)) or impure(s):
                continue
            v = s.targets[0].id
            if sum(1 for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == v) != 2 or not isinstance(t, (ast.Assign, ast.Return, ast.Expr)) or v not in names(t, ast.Load):
                continue
            if any(isinstance(x, (ast.Lambda, ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.SetComp)) and v in names(x) for x in ast.walk(t)):
                continue
            def go(b=b, s=s, t=t, v=v):
                class Sub(ast.NodeTransformer):
                    def visit_Name(self, n):
                        return s.value if n.id == v else n
                b[b.index(t)] = Sub().visit(t)
                b.remove(s)
            yield f"inline {v}", go


TS = [v for k, v in list(globals().items()) if k.startswith("t_")]


def main():
    ids = sys.argv[1].split(",")
    per = int(os.environ.get("PER", "3"))
    only = os.environ.get("ONLY")
    seed = int(os.environ.get("SEED", "1"))
    jobs = []
    for spec in sys.argv[2:]:
        file, _, fs = spec.partition(":")
        tree = ast.parse(open(f"{BASE}/artist/{file}").read())
        want = set(fs.split(",")) if fs else None
        for fn0 in [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) and (not want or n.name in want)]:
            for tr in TS:
                if only and tr.__name__ not in only.split(","):
                    continue
                R = random.Random(f"{seed}{fn0.name}{tr.__name__}")
                n = len(list(tr(tree, fn0, random.Random(R.random()))))
                if not n:
                    continue
                rr = R.random()
                cnt = len(list(tr(tree, fn0, random.Random(rr))))
                for pick in R.sample(range(cnt), min(per, cnt)):
                    t = copy.deepcopy(tree)
                    fn = next(x for x in ast.walk(t) if isinstance(x, ast.FunctionDef) and x.name == fn0.name and x.lineno == fn0.lineno)
                    d, go = list(tr(t, fn, random.Random(rr)))[pick]
                    try:
                        go()
                        ast.fix_missing_locations(t)
                        out = ast.unparse(t)
                        compile(out, file, "exec")
                    except Exception as e:
                        print("bad transform", tr.__name__, d, e)
                        continue
                    jobs.append((file, fn0.name, f"{tr.__name__} {d}", out))
    root = tempfile.mkdtemp(prefix="ref_")
    W = int(os.environ.get("W", "8"))
    q = queue.Queue()
    for w in range(W):
        shutil.copytree(f"{BASE}/artist", f"{root}/{w}/artist", ignore=shutil.ignore_patterns("__pycache__"))
        q.put(w)

    def run(j):
        w = q.get()
        try:
            p = f"{root}/{w}/artist/{j[0]}"
            old = open(p).read()
            open(p, "w").write(j[3])
            res = []
            for i in ids:
                r = subprocess.run([sys.executable, f"{V}/check.py", i], env=dict(os.environ, VERIF_REPO=f"{root}/{w}", VERIF_EVIDENCE=f"{root}/{w}/ev"),
                                   capture_output=True, text=True, cwd=V)
                if r.returncode:
                    res.append((i, r.returncode, (r.stdout + r.stderr).strip().splitlines()))
            open(p, "w").write(old)
            return res
        finally:
            q.put(w)
    with ThreadPoolExecutor(W) as ex:
        rs = list(ex.map(run, jobs))
    bad = 0
    for j, r in zip(jobs, rs):
        for i, c, o in r:
            bad += 1
            print(f"ALARM {i} rc={c} {j[0]}:{j[1]} {j[2]}\n    " + "\n    ".join(x[:260] for x in o[-3:-1][:2]))
            if os.environ.get("KEEP"):
                open(f"/tmp/keep_{i}_{bad}.py", "w").write(j[3])
    shutil.rmtree(root)
    print(f"{len(jobs)} refactorings x {len(ids)} checks: {bad} alarms")


main()

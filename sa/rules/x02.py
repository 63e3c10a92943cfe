"""Device discipline: in every function the expressions that denote the selected device are found by a closure over its assignments (the device parameter,
what get_device makes of it, the device of a tensor or of a set-up); every tensor factory, every call that takes a device and every move is then held against it."""
import ast

from ..repo import PKG

FACTORIES = {"tensor", "as_tensor", "zeros", "ones", "empty", "full", "arange", "range", "linspace", "logspace", "eye", "rand", "randn", "randint", "randperm", "normal",
             "from_numpy", "tril_indices", "triu_indices", "scalar_tensor", "empty_strided", "hann_window"}
INDEX = {"arange", "randperm"}      # index tensors may live on the CPU: indexing moves them
PICK = "get_device"


def own(node):
    """Nodes of a function body without nested functions, with their parents."""
    out, todo = [], [(c, node) for c in node.body]
    while todo:
        n, p = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        out.append((n, p))
        todo += [(c, n) for c in ast.iter_child_nodes(n)]
    return out


class Scope:
    def __init__(self, repo, f, busy=frozenset()):
        self.repo, self.f, self.busy = repo, f, busy | {f.qual}
        self.nodes = own(f.node)
        self.parent = {id(n): p for n, p in self.nodes}
        self.names = {"device"} if "device" in f.params else set()
        self.assigned = {}
        for n, _ in self.nodes:
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Name) and n.value is not None:
                        self.assigned.setdefault(t.id, []).append(n.value)
        for p in f.params:
            if p.endswith("device"):
                self.names.add(p)
        while True:
            new = {k for k, vs in self.assigned.items() if k not in self.names and all(self.ok(v) for v in vs)}
            if not new:
                break
            self.names |= new
        # a name is a device only if every assignment to it is
        for k in list(self.names):
            if not all(self.ok(v) for v in self.assigned.get(k, [])):
                self.names.discard(k)

    def dotted(self, e):
        return self.repo.resolve_expr_dotted(e, self.f.module) or ""

    def ok(self, e):
        if e is None:
            return False
        if isinstance(e, ast.Name):
            return e.id in self.names
        if isinstance(e, ast.Attribute):
            return e.attr == "device"
        if isinstance(e, ast.Subscript):
            return isinstance(e.slice, ast.Constant) and e.slice.value == "device" or self.const(e.slice) == "device"
        if isinstance(e, ast.IfExp):
            return self.ok(e.body) and self.ok(e.orelse)
        if isinstance(e, ast.BoolOp):
            return all(self.ok(v) for v in e.values)
        if isinstance(e, ast.NamedExpr):
            return self.ok(e.value)
        if isinstance(e, ast.Call):
            d = self.dotted(e.func)
            if d.rpartition(".")[2] == PICK:
                a = device_arg(self.repo.funcs.get(d), e)
                return self.ok(a) if a is not None else "device" not in self.f.params
            if d == "torch.device":
                a = e.args[0] if e.args else None
                return a is not None and (self.ok(a) or self.f.module.dotted == "artist.util.env")     # where devices are chosen
            if isinstance(e.func, ast.Name) and e.func.id == "cast" and len(e.args) == 2:
                return self.ok(e.args[1])
            g = self.repo.funcs.get(d)
            if g is None and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in ("self", "cls") and self.f.cls is not None:
                g = self.repo.find_method(self.f.cls.qual, e.func.attr)
            if g is not None and g.qual not in self.busy:      # a helper that returns the device
                a = device_arg(g, e)
                if a is not None and self.ok(a):
                    rets = [n.value for n, _ in own(g.node) if isinstance(n, ast.Return)]
                    sub = Scope(self.repo, g, self.busy | {g.qual})
                    return bool(rets) and all(sub.ok(v) for v in rets)
            if isinstance(e.func, ast.Attribute) and e.func.attr == "get" and e.args and self.const(e.args[0]) == "device":
                return True
        return False

    def const(self, e):
        ok, v = self.repo._lit(e, self.f.module, 0)
        return v if ok else None

    def moved(self, n):
        """The tensor is moved to the device before it is used: x[...].float().to(device)."""
        while True:
            p = self.parent.get(id(n))
            if isinstance(p, ast.Attribute) and p.value is n:
                c = self.parent.get(id(p))
                if isinstance(c, ast.Call) and c.func is p:
                    if p.attr == "to" and any(self.ok(a) for a in c.args + [k.value for k in c.keywords]):
                        return True
                    n = c
                    continue
            if isinstance(p, (ast.Assign, ast.AnnAssign)):
                # every later use of the name moves it
                t = p.targets[0] if isinstance(p, ast.Assign) else p.target
                if isinstance(t, ast.Name):
                    uses = [m for m, _ in self.nodes if isinstance(m, ast.Name) and m.id == t.id and isinstance(m.ctx, ast.Load)]
                    return bool(uses) and all(self.moved(u) for u in uses)
            return False


def device_arg(func, call):
    for k in call.keywords:
        if k.arg == "device":
            return k.value
    if func is None or "device" not in func.posparams:
        return None
    ps = [p for p in func.posparams if not (func.cls is not None and not func.is_static and p == func.posparams[0])]
    i = ps.index("device") if "device" in ps else None
    return call.args[i] if i is not None and i < len(call.args) and not any(isinstance(a, ast.Starred) for a in call.args[:i + 1]) else None


def number(a):
    """The annotation promises a Python number (or None)."""
    members = {m.strip() for m in ast.unparse(a).strip("'\"").split("|")} - {"None"} if a is not None else set()
    return bool(members) and members <= {"float", "int", "bool"}


def scalar(sc, e):
    """Numbers: zero-dimensional CPU tensors combine with tensors of any device."""
    if isinstance(e, ast.Constant):
        return True
    if isinstance(e, ast.UnaryOp):
        return scalar(sc, e.operand)
    if isinstance(e, ast.Attribute):
        d = sc.dotted(e)
        if d in ("torch.inf", "math.inf", "torch.pi", "math.pi", "numpy.inf"):
            return True
        found = []
        own_cls = [sc.f.cls.qual] if sc.f.cls is not None and isinstance(e.value, ast.Name) and e.value.id == "self" else list(sc.repo.classes)
        for c in own_cls:
            init = sc.repo.find_method(c, "__init__")
            for n in ast.walk(init.node) if init else ():
                t = n.targets[0] if isinstance(n, ast.Assign) else n.target if isinstance(n, ast.AnnAssign) else None
                if isinstance(t, ast.Attribute) and t.attr == e.attr and isinstance(n.value, ast.Name):
                    a = init.annots.get(n.value.id)
                    found.append(number(a))
        return bool(found) and all(found)
    if isinstance(e, ast.Name):
        a = sc.f.annots.get(e.id)
        return number(a) or all(scalar(sc, v) for v in sc.assigned.get(e.id, [])) and e.id in sc.assigned
    if isinstance(e, ast.List):
        return not e.elts
    return False


def takes(g):
    """The function has a device parameter or reads the device from its keyword arguments."""
    return "device" in g.params or "device" in reads(g)


def reads(g):
    """Names read from **kwargs."""
    return {n.slice.value for n in ast.walk(g.node) if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == g.kwarg and
            isinstance(n.slice, ast.Constant)} if g.kwarg else set()


def targets(sc, call):
    """Repository functions a call may run, [] when it leaves the repository or is unknown."""
    repo, f = sc.repo, call.func
    d = sc.dotted(f)
    if d in repo.funcs:
        return [repo.funcs[d]]
    if d in repo.classes:
        g = repo.find_method(d, "__init__")
        return [g] if g else []
    if isinstance(f, ast.Attribute):
        v = f.value
        if isinstance(v, ast.Name) and v.id in ("self", "cls") and sc.f.cls is not None:
            g = repo.find_method(sc.f.cls.qual, f.attr)
            return [g] if g else []
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and sc.f.cls is not None:
            for b in repo.mro(sc.f.cls.qual)[1:]:
                if f"{b}.{f.attr}" in repo.funcs:
                    return [repo.funcs[f"{b}.{f.attr}"]]
            return []
        t = repo.expr_type(v, sc.f)
        if t and t[0] == "cls":
            g = repo.find_method(t[1], f.attr)
            if g:
                return [g]
        c = [repo.funcs[q] for q in repo.method_index.get(f.attr, []) if repo.funcs[q].cls is not None]
        if c and not f.attr.startswith("__") and d.split(".")[0] not in ("torch", "numpy", "h5py") and all("device" in g.params for g in c):
            return c
    if isinstance(f, ast.Subscript):        # a class picked from a registry
        dd = sc.dotted(f.value)
        m = repo.modules.get(dd.rpartition(".")[0])
        e = m.assigns.get(dd.rpartition(".")[2]) if m else None
        out = []
        for v in e.values if isinstance(e, ast.Dict) else ():
            g = repo.find_method(repo.resolve_expr_dotted(v, m) or "", "__init__")
            out += [g] if g else []
        return out
    t = repo.expr_type(f, sc.f) if isinstance(f, (ast.Name, ast.Attribute)) else None
    if t and t[0] == "cls" and not d:
        return [g for c in [t[1], *repo.all_subclasses(t[1])] for g in [repo.funcs.get(c + ".__call__")] if g and takes(g) and reads(g) & {k.arg for k in call.keywords} - {"device", "reduction_dimensions"}]
    if isinstance(f, ast.Name) and f.id == "cls" and sc.f.cls is not None:
        g = repo.find_method(sc.f.cls.qual, "__init__")
        return [g] if g else []
    return []


def check(repo, R):
    R.rule("X02.create", "every tensor created in a function that is given a device is created on that device (numbers, empty placeholders and index tensors excepted) or moved there before use")
    R.rule("X02.pass", "a call of a function that takes a device passes the selected one on (a missing device would select the machine's default)")
    R.rule("X02.move", "tensors are moved only to the selected device, or to the host on leaving the computation (detached results, file output)")
    for q, f in sorted(repo.funcs.items()):
        if not q.startswith(PKG + "."):
            continue
        sc = Scope(repo, f)
        used = False
        for n, _ in sc.nodes:
            if not isinstance(n, ast.Call):
                continue
            d = sc.dotted(n.func)
            where = f"{f.file}:{n.lineno}"
            text = f"{f.name}:{ast.unparse(n.func)}"
            if d.startswith("torch.") and d.count(".") == 1 and d[6:] in FACTORIES:
                a = device_arg(None, n)
                used = True
                if a is None:
                    ok = bool(n.args) and d[6:] in ("tensor", "as_tensor", "scalar_tensor") and scalar(sc, n.args[0]) or sc.moved(n)
                    R.ob("X02.create", text, ok, where, "" if ok else f"created on the default device: {ast.unparse(n)[:80]}")
                else:
                    ok = sc.ok(a) or isinstance(a, ast.Constant) and a.value == "cpu" and d[6:] in INDEX
                    R.ob("X02.create", text, ok, where, "" if ok else f"created on {ast.unparse(a)[:60]}, which is not the selected device")
                continue
            if d.rpartition(".")[2] == PICK and d in repo.funcs:
                ok = sc.ok(n)
                R.ob("X02.pass", text, ok, where, "" if ok else "the given device is ignored")
                continue
            g = targets(sc, n)
            if g and all(takes(x) for x in g) and not any(k.arg is None for k in n.keywords):
                used = True
                a = device_arg(g[0], n)
                ok = a is not None and sc.ok(a)
                R.ob("X02.pass", text, ok, where, "" if ok else f"{g[0].name} is called without the selected device" if a is None else f"{ast.unparse(a)[:60]} is not the selected device")
                continue
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("to", "cpu", "cuda"):
                if n.func.attr == "to":
                    dev = [a for a in n.args[:1] if not dtype(sc, a)] + [k.value for k in n.keywords if k.arg == "device"]
                    ok = all(sc.ok(a) or not isinstance(a, ast.Constant) and not looks_device(a) for a in dev)
                    if not dev:
                        continue
                else:
                    ok = n.func.attr == "cpu" and leaves(sc, n)
                R.ob("X02.move", text, ok, where, "" if ok else f"moved away from the selected device: {ast.unparse(n)[:80]}")
        if used:
            R.analysed(q)
    for r, n in {"X02.create": 200, "X02.pass": 200, "X02.move": 20}.items():
        R.floor(r, n)


def dtype(sc, e):
    return sc.dotted(e).startswith("torch.") or isinstance(e, ast.Attribute) and e.attr == "dtype"


def looks_device(e):
    return isinstance(e, ast.Call) and "device" in ast.unparse(e.func)


def leaves(sc, n):
    """x.detach().cpu() or x.cpu().item()/numpy()/tolist(), or the value of a file entry."""
    inner = ast.unparse(n.func.value)
    if isinstance(n.func.value, ast.Name):
        vs = sc.assigned.get(n.func.value.id, [])
        if vs and all(".detach()" in ast.unparse(v) for v in vs):
            return True
    if ".detach()" in inner or ".item()" in inner:
        return True
    p = sc.parent.get(id(n))
    if isinstance(p, ast.Attribute) and p.attr in ("item", "numpy", "tolist", "detach"):
        return True
    return sc.f.module.dotted.endswith("h5_scenario_generator")

"""Effects: every in-place change (item and attribute stores, augmented assignments, methods that end in an underscore, list and dictionary changes, out= targets)
in a public function, with its private helpers inlined, is traced back through views and aliases to the object it changes.  Objects that belong to the caller
(arguments, or state reachable from them or from self) may only be changed where the table of intended effects says so."""
from ..repo import PKG
from ..vf import analyse

VIEWS = {"view", "reshape", "squeeze", "unsqueeze", "expand", "expand_as", "detach", "transpose", "permute", "t", "T", "mT", "H", "to", "float", "double", "contiguous", "narrow",
         "select", "split", "chunk", "unbind", "flatten", "unflatten", "as_tensor", "from_numpy", "numpy", "cpu", "swapaxes", "movedim", "diagonal", "real", "view_as", "reshape_as",
         "ravel", "swapdims", "moveaxis", "atleast_1d", "cast", "get", "values", "items", "broadcast_to", "data", "unfold"}
LISTS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "popitem", "discard"}
FILES = {"write", "close", "require_group", "create_group"}
# intended effects: module -> attributes (a trailing * is a prefix); "@f" = in-place call f on anything
ALLOWED = {
    "artist.field.heliostat_group": ["active_*", "number_of_active_heliostats"],
    "artist.field.heliostat_group_rigid_body": ["active_*", "number_of_active_heliostats"],
    "artist.field.kinematics_rigid_body": ["active_motor_positions"],
    "artist.field.heliostat_field": ["surface_points", "surface_normals"],
    "artist.raytracing.heliostat_ray_tracer": ["preferred_reflection_directions"],
    "artist.scenario.scenario": ["number_of_rays"],
    "artist.scenario.surface_generator": ["param_groups"],
    "artist.optim.training": ["best_loss", "counter", "loss_history"],
    "artist.optim.kinematics_reconstructor": ["grad", "rotation_deviation_parameters", "@requires_grad_"],
    "artist.optim.surface_reconstructor": ["grad", "nurbs_control_points", "active_surface_points", "active_surface_normals", "@requires_grad_"],
    "artist.optim.aim_point_optimizer": ["grad", "motor_positions", "@requires_grad_"],
}


def basic(i):
    """Basic indexing gives a view, indexing with a tensor or a list a copy."""
    if i.k == "tuple":
        return all(basic(x) for x in i.a)
    return i.k in ("const", "slice", "loopvar", "idx", "global") or i.k == "un" and basic(i.a[-1])


def roots(n, out=None, seen=None):
    """Objects of the caller that n may be (part of): access paths ending at a parameter."""
    out, seen = [] if out is None else out, set() if seen is None else seen
    if n is None or n in seen or not hasattr(n, "k"):
        return out
    seen.add(n)
    if n.k == "param":
        out.append(n)
    elif n.k == "attr":
        for r in roots(n.a[0], [], seen):
            out.append(n)
            break
    elif n.k in ("elem", "col"):
        roots(n.a[0], out, seen)
    elif n.k == "sub":
        if basic(n.a[1]) or not tensorlike(n.a[0]):
            roots(n.a[0], out, seen)
    elif n.k in ("update", "append", "extend"):
        roots(n.a[0], out, seen)
    elif n.k == "mut":
        roots(n.a[1], out, seen)
    elif n.k == "phi":
        roots(n.a[1], out, seen)
        roots(n.a[2], out, seen)
    elif n.k == "loopvar":
        roots(n.a[2], out, seen)
    elif n.k == "loopout":
        roots(n.a[2], out, seen)
        roots(n.a[3], out, seen)
    elif n.k == "op" and n.a[1] and (n.a[0].rpartition(".")[2] in VIEWS or n.a[0].endswith("_") and not n.a[0].startswith("_")):
        roots(n.a[1][0][1], out, seen)
    return out


def tensorlike(n):
    """False when a subscript with an unknown index selects an entry of a container (which is no copy)."""
    return not (n.k == "attr" and n.a[1] in ("param_groups", "heliostat_groups", "light_source_list", "target_areas", "facet_list"))


def base(n):
    while n.k in ("attr", "sub", "elem", "col"):
        n = n.a[0]
    return n


def kind_of(repo, f, n):
    """'data' when the object is a tensor, list, dictionary or object; 'number' when it cannot be changed in place."""
    if n.k == "param":
        import ast
        a = f.annots.get(n.a[1])
        if a is None:
            return "data"
        t = ast.unparse(a).replace(" ", "")
        return "number" if all(x in ("int", "float", "bool", "str", "None", "pathlib.Path", "torch.device", "tuple") or x.startswith("tuple[") for x in split_union(t)) else "data"
    if n.k == "attr":
        import ast
        for q, c in repo.classes.items():
            init = repo.funcs.get(q + ".__init__")
            if init is None:
                continue
            for s in ast.walk(init.node):
                t = s.targets[0] if isinstance(s, ast.Assign) else s.target if isinstance(s, ast.AnnAssign) else None
                if isinstance(t, ast.Attribute) and t.attr == n.a[1] and s.value is not None:
                    names = {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)}
                    ann = [ast.unparse(init.annots[x]) for x in names if init.annots.get(x) is not None]
                    if isinstance(s.value, (ast.List, ast.Dict)) or any("Tensor" in x or "list" in x or "dict" in x for x in ann) or "torch." in ast.unparse(s.value):
                        return "data"
        return "number"
    return "data"


def split_union(t):
    out, d, cur = [], 0, ""
    for c in t:
        d += c in "[("
        d -= c in "])"
        if c == "|" and not d:
            out.append(cur)
            cur = ""
        else:
            cur += c
    return out + [cur]


def allowed(mod, names):
    table = ALLOWED.get(mod, ())
    return any(n == a or a.endswith("*") and n.startswith(a[:-1]) for n in names for a in table)


def path(n):
    if n.k == "param":
        return n.a[1]
    if n.k == "attr":
        return f"{path(n.a[0])}.{n.a[1]}"
    if n.k in ("sub", "elem", "col"):
        return path(n.a[0]) + "[…]"
    return "…"


def attrs(n):
    out = []
    while n.k in ("attr", "sub", "elem", "col"):
        if n.k == "attr":
            out.append(n.a[1])
        n = n.a[0]
    return out


def check(repo, R):
    R.rule("X03.arguments", "a public function leaves the tensors, lists, dictionaries and objects it is given as they are, except for the intended effects of activation, alignment, surface update and reconstruction")
    R.rule("X03.state", "methods other than the constructor change only the attributes that are the state of activation, alignment, early stopping, surface update and reconstruction")
    R.rule("X03.global", "the only process-wide state that is changed is the random generator, by the light source that is given the seed")
    for q, f in sorted(repo.funcs.items()):
        if f.name.startswith("_") and f.name not in ("__init__", "__call__", "__getitem__", "__len__", "__iter__") or not q.startswith(PKG + ".") or ".<" in q:
            continue
        if f.is_abstract or f.name in ("create_scenario_main",):
            continue
        g = analyse(repo, q)
        R.analysed(q)
        mod = f.module.dotted
        bad = {"X03.arguments": {}, "X03.state": {}}

        def effect(e, target, names, how, need_data=False):
            for r in roots(target):
                b = base(r)
                if b.k != "param":
                    continue
                mine = b.a[1] in ("self", "cls")
                if mine and f.name == "__init__":
                    continue
                if need_data and kind_of(repo, f, r) == "number":
                    continue
                if allowed(mod, names + attrs(r)[:1] if names else attrs(r)[:1]) or allowed(mod, ["@" + how]):
                    continue
                if "h5py.File" in str(f.annots.get(b.a[1]) and __import__("ast").unparse(f.annots[b.a[1]])):
                    continue
                bad["X03.state" if mine else "X03.arguments"].setdefault((path(r), how), e)
        for e in g.events:
            if e.kind == "store_attr":
                for r in roots(e.x[0]) or []:
                    effect(e, r, [e.x[1]], "." + e.x[1])
            elif e.kind == "store_sub":
                effect(e, e.x[2] if len(e.x) > 2 and hasattr(e.x[2], "k") else e.x[0], [], "[…] =")
            elif e.kind == "aug":
                if e.x[3]:
                    effect(e, e.x[0], [], "augmented assignment", True)
            elif e.kind == "call" and e.node is not None and e.node.k == "op":
                name = e.node.a[0].rpartition(".")[2]
                ar = e.node.a[1]
                if (name.endswith("_") and not name.startswith("_") or name in LISTS and isinstance(e.x, dict) and "recv" in e.x) and ar:
                    if name not in ("update", "pop", "sort") or roots(ar[0][1]) and listlike(repo, f, ar[0][1]):
                        effect(e, ar[0][1], [], name)
                for k, v in ar:
                    if k == "out":
                        effect(e, v, [], "out=")
        for rule, d in bad.items():
            if rule == "X03.state" and f.cls is None:
                continue
            for (p, how), e in d.items():
                R.ob(rule, f"{f.cls.name + '.' if f.cls else ''}{f.name}:{p}:{how}", False, e.where(), f"changes {p} of the caller in place ({how})" if rule.endswith("arguments") else f"changes {p} ({how})")
            if not d:
                R.ob(rule, f"{f.cls.name + '.' if f.cls else ''}{f.name}", True, f"{f.file}:{f.line}", "")
        for e in g.events:
            if e.kind == "call" and e.node is not None and e.node.k == "op" and (e.node.a[0].startswith(("torch.set_", "torch.autograd.set", "random.seed", "numpy.random.seed")) or
                    e.node.a[0].rpartition(".")[2] in ("manual_seed", "set_default_dtype", "set_default_device", "use_deterministic_algorithms", "set_grad_enabled", "set_num_threads")):
                ok = e.node.a[0].endswith("manual_seed") and f.name == "get_distortions"
                R.ob("X03.global", f"{f.name}:{e.node.a[0]}", ok, e.where(), "" if ok else "changes process-wide state")
    for r, n in {"X03.arguments": 100, "X03.state": 60, "X03.global": 1}.items():
        R.floor(r, n)


def listlike(repo, f, n):
    import ast
    for r in roots(n):
        if r.k == "param":
            a = f.annots.get(r.a[1])
            if a is not None and any(x in ast.unparse(a) for x in ("list", "dict", "Sequence", "Mapping")):
                return True
        elif r.k == "attr":
            return True
    return False

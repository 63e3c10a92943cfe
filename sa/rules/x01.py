"""Loadability: the module level of every module is executed abstractly (import statements, name bindings, evaluated expressions) once with
each module of the package as the first one imported; every name, module attribute, member and internal call in the package is resolved
against what exists, without running anything."""
import ast
import builtins

from ..repo import PKG

BUILT = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__builtins__"}


def type_checking(t):
    return ast.unparse(t) in ("TYPE_CHECKING", "typing.TYPE_CHECKING")


def pkg_of(m):
    return m.dotted if m.path.endswith("__init__.py") else m.dotted.rpartition(".")[0]


def absmod(m, st):
    mod = st.module or ""
    if st.level:
        parts = pkg_of(m).split(".")
        parts = parts[: len(parts) - (st.level - 1)]
        mod = ".".join(parts + ([mod] if mod else []))
    return mod


# --------------------------------------------------------------------------- module level
class Loader:
    """Abstract execution of module bodies in import order."""

    def __init__(self, repo):
        self.repo = repo
        self.ns = {}          # module -> {name: dotted module or None}
        self.errors = []
        self.done = set()
        self.quiet = 0

    def err(self, m, node, msg):
        if not self.quiet:
            self.errors.append((m, getattr(node, "lineno", 1), msg))

    def load(self, dotted):
        """import dotted; False when no such module of the package exists."""
        parts = dotted.split(".")
        for i in range(1, len(parts) + 1):
            q = ".".join(parts[:i])
            if q not in self.repo.modules:
                return False
            if q in self.ns:
                continue
            self.ns[q] = {}
            m = self.repo.modules[q]
            future = any(isinstance(s, ast.ImportFrom) and s.module == "__future__" and any(a.name == "annotations" for a in s.names) for s in m.tree.body)
            self.block(m, m.tree.body, future, None)
            self.done.add(q)
            if i > 1:
                self.ns[".".join(parts[: i - 1])][parts[i - 1]] = q
        return True

    def block(self, m, body, future, cls):
        for s in body:
            self.stmt(m, s, future, cls)

    def bind(self, m, name, val, cls):
        if cls is not None:
            cls[name] = val
        else:
            self.ns[m.dotted][name] = val

    def stmt(self, m, s, future, cls):
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.name.split(".")[0] == PKG:
                    if not self.load(a.name):
                        self.err(m, s, f"module {a.name} does not exist")
                    self.bind(m, a.asname or PKG, a.name if a.asname else PKG, cls)
                else:
                    self.bind(m, a.asname or a.name.split(".")[0], None, cls)
        elif isinstance(s, ast.ImportFrom):
            mod = absmod(m, s)
            inside = mod.split(".")[0] == PKG
            if inside and not self.load(mod):
                self.err(m, s, f"module {mod} does not exist")
                inside = False
            for a in s.names:
                val = None
                if inside and a.name != "*":
                    ns = self.ns[mod]
                    if a.name in ns:
                        val = ns[a.name]
                    elif f"{mod}.{a.name}" in self.repo.modules:
                        self.load(f"{mod}.{a.name}")
                        val = f"{mod}.{a.name}"
                    elif mod not in self.done:
                        self.err(m, s, f"import cycle: {a.name} is taken from {mod} before it is defined there")
                    else:
                        self.err(m, s, f"{mod} defines no {a.name}")
                self.bind(m, a.asname or a.name, val, cls)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list:
                self.expr(m, d, cls)
            for d in s.args.defaults + [x for x in s.args.kw_defaults if x]:
                self.expr(m, d, cls)
            if not future:
                for x in s.args.posonlyargs + s.args.args + s.args.kwonlyargs + [y for y in (s.args.vararg, s.args.kwarg) if y]:
                    if x.annotation:
                        self.expr(m, x.annotation, cls)
                if s.returns:
                    self.expr(m, s.returns, cls)
            self.bind(m, s.name, None, cls)
        elif isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases + [k.value for k in s.keywords]:
                self.expr(m, d, cls)
            inner = {}
            self.block(m, s.body, future, inner)
            self.bind(m, s.name, None, cls)
        elif isinstance(s, ast.Assign):
            self.expr(m, s.value, cls)
            for t in s.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        self.bind(m, x.id, None, cls)
        elif isinstance(s, ast.AnnAssign):
            if s.value:
                self.expr(m, s.value, cls)
            if not future:
                self.expr(m, s.annotation, cls)
            if s.value is not None and isinstance(s.target, ast.Name):
                self.bind(m, s.target.id, None, cls)
        elif isinstance(s, ast.If):
            if type_checking(s.test):
                self.block(m, s.orelse, future, cls)
                return
            self.expr(m, s.test, cls)
            self.block(m, s.body, future, cls)
            self.block(m, s.orelse, future, cls)
        elif isinstance(s, ast.Try):
            self.block(m, s.body, future, cls)
            for h in s.handlers:
                if h.name:
                    self.bind(m, h.name, None, cls)
                self.block(m, h.body, future, cls)
            self.block(m, s.orelse + s.finalbody, future, cls)
        elif isinstance(s, (ast.For, ast.While, ast.With)):
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    self.bind(m, x.id, None, cls)
        else:
            for e in ast.iter_child_nodes(s):
                if isinstance(e, ast.expr):
                    self.expr(m, e, cls)

    def expr(self, m, e, cls):
        if isinstance(e, ast.Lambda):
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load):
            if not (cls is not None and e.id in cls) and e.id not in self.ns[m.dotted] and e.id not in BUILT:
                self.err(m, e, f"name {e.id} is not defined when the module is loaded")
            return
        if isinstance(e, ast.Attribute):
            q = self.mod(m, e.value)
            if q is not None and q in self.ns:
                if e.attr not in self.ns[q] and f"{q}.{e.attr}" not in self.ns:
                    self.err(m, e, f"{q} has no {e.attr} yet when the module is loaded" if q not in self.done else f"{q} defines no {e.attr}")
                return
        for x in ast.iter_child_nodes(e):
            if isinstance(x, (ast.expr, ast.keyword, ast.comprehension)):
                self.expr(m, x.value if isinstance(x, ast.keyword) else x, cls) if not isinstance(x, ast.comprehension) else None

    def mod(self, m, e):
        if isinstance(e, ast.Name):
            v = self.ns[m.dotted].get(e.id)
            return v if v in self.repo.modules else None
        if isinstance(e, ast.Attribute):
            b = self.mod(m, e.value)
            if b is not None:
                v = self.ns.get(b, {}).get(e.attr)
                return v if v in self.repo.modules else None
        return None


# --------------------------------------------------------------------------- inside functions
def bound_names(fn):
    """Names bound in the scope of a function (not in nested functions, classes or comprehensions)."""
    out, glob = set(), set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        out.add(x.arg)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add(al.asname or al.name.split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for s in fn.body if isinstance(fn.body, list) else [fn.body]:
        walk(s)
    return out - glob


class Names:
    def __init__(self, repo, ns):
        self.repo, self.ns, self.errors, self.count = repo, ns, [], 0

    def run(self, m):
        self.m = m
        self.top = set(self.ns.get(m.dotted, {})) | BUILT
        for s in m.tree.body:
            self.visit(s, [], False)

    def visit(self, n, scopes, infn):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            inner = scopes + [bound_names(n)]
            a = n.args
            for d in a.defaults + [x for x in a.kw_defaults if x]:
                self.visit(d, scopes, infn)
            for s in n.body if isinstance(n.body, list) else [n.body]:
                self.visit(s, inner, True)
            return
        if isinstance(n, ast.ClassDef):
            for s in n.body:
                self.visit(s, scopes, infn)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            b = set()
            for g in n.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        b.add(x.id)
            for c in ast.iter_child_nodes(n):
                self.visit(c, scopes + [b], infn)
            return
        if isinstance(n, ast.AnnAssign) and infn:
            if n.value:
                self.visit(n.value, scopes, infn)
            return
        if infn and isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            self.count += 1
            if n.id not in self.top and not any(n.id in s for s in scopes):
                self.errors.append((self.m, n.lineno, f"name {n.id} does not exist"))
        if infn and isinstance(n, ast.ImportFrom):
            mod = absmod(self.m, n)
            if mod.split(".")[0] == PKG:
                for a in n.names:
                    self.count += 1
                    if mod not in self.repo.modules:
                        self.errors.append((self.m, n.lineno, f"module {mod} does not exist"))
                    elif a.name not in self.ns.get(mod, {}) and f"{mod}.{a.name}" not in self.repo.modules:
                        self.errors.append((self.m, n.lineno, f"{mod} defines no {a.name}"))
        if infn and isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            d = None
            r = n.value
            while isinstance(r, ast.Attribute):
                r = r.value
            if isinstance(r, ast.Name) and not any(r.id in s for s in scopes):
                d = self.repo.resolve_expr_dotted(n.value, self.m)
            if d in self.repo.modules:
                self.count += 1
                if n.attr not in self.ns.get(d, {}) and f"{d}.{n.attr}" not in self.repo.modules:
                    self.errors.append((self.m, n.lineno, f"{d} defines no {n.attr}"))
        for c in ast.iter_child_nodes(n):
            self.visit(c, scopes, infn)


def signature_error(repo, f, call, bound):
    """Why the call does not bind to the function; None when it does or when it cannot be told (star arguments)."""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return None
    pos = f.posparams[1 if bound else 0:]
    if len(call.args) > len(pos) and not f.vararg:
        return f"takes {len(pos)} positional arguments, {len(call.args)} given"
    given = set(pos[: len(call.args)])
    only = {x.arg for x in f.node.args.posonlyargs}
    for k in call.keywords:
        if k.arg in given:
            return f"argument {k.arg} is given twice"
        if k.arg not in f.params or k.arg in only:
            if not f.kwarg:
                return f"has no parameter {k.arg}"
        given.add(k.arg)
    missing = [p for p in pos + f.kwonly if p not in given and p not in f.defaults]
    if missing:
        return f"required argument {missing[0]} is missing"
    return None


def constructor(repo, q):
    """__init__ of a class, or the field list of a dataclass as (params, required)."""
    f = repo.find_method(q, "__init__")
    ext = [b for c in repo.mro(q) for b in repo.classes[c].bases if b not in repo.classes]
    return f, ext


class Typer:
    """Static types of expressions from annotations: parameters, locals assigned once from constructors or annotated calls, attributes."""

    def __init__(self, repo, f):
        self.repo, self.f = repo, f
        self.loc = {}
        cnt = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                cnt[n.id] = cnt.get(n.id, 0) + 1
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and cnt.get(n.targets[0].id) == 1 \
                    and n.targets[0].id not in f.params:
                self.loc[n.targets[0].id] = n.value
            elif isinstance(n, (ast.For, ast.comprehension)):
                self.bindit(n.target, n.iter, cnt)
        self.cnt = cnt
        self.depth = 0

    def bindit(self, t, it, cnt):
        if isinstance(t, ast.Name) and cnt.get(t.id) == 1:
            self.loc[t.id] = ("elem", it)
        if isinstance(t, ast.Tuple) and len(t.elts) == 2 and isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and it.args:
            self.bindit(t.elts[1], it.args[0], cnt)

    def type(self, e):
        self.depth += 1
        try:
            return self._type(e) if self.depth < 12 else None
        finally:
            self.depth -= 1

    def _type(self, e):
        repo, f = self.repo, self.f
        if isinstance(e, tuple) and e[0] == "elem":
            t = self.type(e[1])
            return t[1] if t and t[0] == "list" else None
        if isinstance(e, ast.Name):
            if e.id == "self" and f.cls is not None and not f.is_static:
                return ("cls", f.cls.qual)
            if e.id in f.annots and not self.cnt.get(e.id):
                return repo.ann_type(f.annots[e.id], f.module)
            if e.id in self.loc:
                return self.type(self.loc[e.id])
            return None
        if isinstance(e, ast.Attribute):
            t = self.type(e.value)
            if t and t[0] == "cls":
                return repo.attr_type(t[1], e.attr)
            return None
        if isinstance(e, ast.Subscript):
            t = self.type(e.value)
            if t and t[0] in ("list", "dict") and not isinstance(e.slice, ast.Slice):
                return t[1]
            return None
        if isinstance(e, ast.Call):
            d = repo.resolve_expr_dotted(e.func, f.module)
            if d in repo.classes:
                return ("cls", d)
            if d in repo.funcs:
                return repo.ret_type(repo.funcs[d])
            if isinstance(e.func, ast.Attribute):
                t = self.type(e.func.value)
                if t and t[0] == "cls":
                    mth = repo.find_method(t[1], e.func.attr)
                    if mth is not None:
                        r = repo.ret_type(mth)
                        return t if repo.ann_type(mth.node.returns, mth.module) == ("self",) else r
        return None


_MEM = {}


def class_members(repo, q):
    k = (id(repo), q)
    if k not in _MEM:
        _MEM[k] = _class_members(repo, q)
    return _MEM[k]


def _class_members(repo, q):
    """Attributes that objects declared with this class may have: own, inherited and those of every subclass; None when an external base adds more."""
    out = set()
    for c in set(repo.mro(q)) | {y for x in repo.all_subclasses(q) for y in repo.mro(x)}:
        ci = repo.classes[c]
        out |= set(ci.methods) | set(ci.attr_ann) | set(ci.attr_val) | set(ci.class_assigns)
        for n in ast.walk(ci.module.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):  # through self, an alias of it or a helper of the module
                out.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                return None
        for s in ci.node.body:
            for n in ast.walk(s) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else ():
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
        for b in ci.bases:
            if b not in repo.classes and b not in ("object", "abc.ABC", None):
                return None
    return out


def external(repo, q):
    ext = {b for c in repo.mro(q) for b in repo.classes[c].bases if b not in repo.classes and b not in ("object", "abc.ABC")}
    ext |= {None for c in repo.mro(q) for b in repo.classes[c].node.bases if repo.resolve_expr_dotted(b, repo.classes[c].module) is None}
    return ext


def calls(repo, R):
    n = 0
    bad = {}
    for f in repo.funcs.values():
        ty = Typer(repo, f)
        for c in ast.walk(f.node):
            if isinstance(c, ast.Attribute) and isinstance(c.ctx, ast.Load):
                t = ty.type(c.value)
                if t and t[0] == "cls" and t[1] in repo.classes:
                    ms = class_members(repo, t[1])
                    if ms is not None:
                        n += 1
                        if c.attr not in ms and not c.attr.startswith("__"):
                            bad.setdefault(f.qual, []).append((c.lineno, f"{t[1].rpartition('.')[2]} has no member {c.attr}"))
            if not isinstance(c, ast.Call):
                continue
            d = repo.resolve_expr_dotted(c.func, f.module)
            tgt, bound, what = None, False, d
            if isinstance(c.func, ast.Name) and (c.func.id in ty.loc or c.func.id in f.params):
                d = None
            if isinstance(c.func, ast.Name) and c.func.id == "cls" and f.is_classmethod:
                d = f.cls.qual
            if d in repo.classes:
                tgt = repo.find_method(d, "__init__")
                bound, what = True, d
                if tgt is None and external(repo, d):
                    continue
                if tgt is None:
                    if (c.args or c.keywords) and not any("dataclass" in ast.unparse(x) for x in repo.classes[d].node.decorator_list):
                        n += 1
                        bad.setdefault(f.qual, []).append((c.lineno, f"{d} takes no arguments"))
                    continue
            elif d in repo.funcs:
                tgt = repo.funcs[d]
                bound = False
                if tgt.cls is not None:
                    bound = tgt.is_classmethod
            elif isinstance(c.func, ast.Attribute):
                if isinstance(c.func.value, ast.Call) and isinstance(c.func.value.func, ast.Name) and c.func.value.func.id == "super" and f.cls is not None:
                    for q in repo.mro(f.cls.qual)[1:]:
                        if c.func.attr in repo.classes[q].methods:
                            tgt, bound, what = repo.classes[q].methods[c.func.attr], True, q + "." + c.func.attr
                            break
                else:
                    t = ty.type(c.func.value)
                    if t and t[0] == "cls" and t[1] in repo.classes:
                        tgts = {repo.find_method(x, c.func.attr) for x in [t[1]] + repo.all_subclasses(t[1])} - {None}
                        for g in sorted(tgts, key=lambda x: x.qual):
                            if g.is_property:
                                continue
                            n += 1
                            e = signature_error(repo, g, c, not g.is_static)
                            if e:
                                bad.setdefault(f.qual, []).append((c.lineno, f"{g.qual} {e}"))
                        continue
            if tgt is None or tgt.is_property:
                continue
            if any(x not in ("staticmethod", "classmethod") and not x.endswith("abstractmethod") and "track_runtime" not in x and "no_grad" not in x for x in tgt.deco):
                continue
            n += 1
            e = signature_error(repo, tgt, c, bound and not tgt.is_static)
            if e:
                bad.setdefault(f.qual, []).append((c.lineno, f"{what} {e}"))
    return n, bad


def check(repo, R):
    R.rule("X01.first", "loading the package with this module first runs into no import cycle and no undefined name")
    R.rule("X01.names", "every name and every attribute of a package module used in the functions of this module exists")
    R.rule("X01.calls", "every call to a package function binds to its signature, and every member used on a package object exists")
    full = {}
    for q in sorted(repo.modules):
        L = Loader(repo)
        L.load(q)
        for k, v in L.ns.items():
            full.setdefault(k, {}).update(v)
        m, ln, msg = L.errors[0] if L.errors else (repo.modules[q], 1, "")
        R.ob("X01.first", q, not L.errors, f"{m.path}:{ln}", msg)
    tot = 0
    for q in sorted(repo.modules):
        N = Names(repo, full)
        N.run(repo.modules[q])
        tot += N.count
        m, ln, msg = N.errors[0] if N.errors else (repo.modules[q], 1, "")
        R.ob("X01.names", q, not N.errors, f"{m.path}:{ln}", msg)
    n, bad = calls(repo, R)
    per = {}
    for f in repo.funcs.values():
        per.setdefault(f.module.dotted, []).append(f.qual)
        R.analysed(f.qual)
    for q in sorted(per):
        hits = [(x, y) for x in per[q] for y in bad.get(x, ())]
        R.ob("X01.calls", q, not hits, f"{repo.modules[q].path}:{hits[0][1][0] if hits else 1}", "; ".join(f"in {x.rpartition('.')[2]}: {y[1]}" for x, y in hits[:3]))
    R.notes.append(f"{len(repo.modules)} modules as first import, {tot} name uses, {n} internal calls and member uses resolved")
    R.floor("X01.first", 20)

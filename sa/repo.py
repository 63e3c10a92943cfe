"""Program database: modules, symbols, classes, functions, resolved names and light-weight types.

Everything is derived from the source text with `ast`; the analysed package is never imported.
"""
from __future__ import annotations

import ast
import hashlib
import os

PKG = "artist"


class AnalysisError(Exception):
    """The analysis itself is broken (vanished anchor, unparsable source)."""


class Module:
    def __init__(self, dotted, path, tree, src):
        self.dotted, self.path, self.tree, self.src = dotted, path, tree, src
        self.aliases = {}      # local name -> dotted
        self.funcs = {}        # name -> FunctionDef
        self.classes = {}      # name -> ClassDef
        self.assigns = {}      # name -> value expr (module level, last one)


class Func:
    def __init__(self, qual, node, module, cls=None):
        self.qual, self.node, self.module, self.cls = qual, node, module, cls
        self.name = node.name
        deco = [ast.unparse(d) for d in node.decorator_list]
        self.deco = deco
        self.is_static = "staticmethod" in deco
        self.is_classmethod = "classmethod" in deco
        self.is_property = "property" in deco
        self.is_abstract = any("abstractmethod" in d for d in deco)
        a = node.args
        self.posparams = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.params = self.posparams + self.kwonly
        self.annots = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs}
        self.defaults = {}
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            self.defaults[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.defaults[p.arg] = d

    @property
    def file(self):
        return self.module.path

    @property
    def line(self):
        return self.node.lineno

    def __repr__(self):
        return f"<Func {self.qual}>"


class Cls:
    def __init__(self, qual, node, module):
        self.qual, self.node, self.module = qual, node, module
        self.name = node.name
        self.methods = {}
        self.bases = []       # dotted
        self.attr_ann = {}    # attr -> (annotation expr, Module)
        self.attr_val = {}    # attr -> (value expr, Func)
        self.class_assigns = {}


def tested_first(tree):
    """`while True:` that starts with `if c: break` is `while not c:`."""
    for w in ast.walk(tree):
        if not isinstance(w, ast.While) or w.orelse or not (isinstance(w.test, ast.Constant) and w.test.value):
            continue
        tests = []
        while len(w.body) > 1 and isinstance(w.body[0], ast.If) and not w.body[0].orelse and len(w.body[0].body) == 1 and isinstance(w.body[0].body[0], ast.Break) \
                and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(w.body[0].test)):
            t = w.body.pop(0).test
            tests += [ast.copy_location(ast.UnaryOp(ast.Not(), x), t) for x in (t.values if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or) else [t])]
        tests = [t.operand.operand if isinstance(t.operand, ast.UnaryOp) and isinstance(t.operand.op, ast.Not) else t for t in tests]
        if tests:
            w.test = tests[0] if len(tests) == 1 else ast.copy_location(ast.BoolOp(ast.And(), tests), tests[0])
    return tree


class Repo:
    def __init__(self, root="/repo"):
        self.root = root
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self.subclasses = {}
        h = hashlib.sha256()
        base = os.path.join(root, PKG)
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                src = open(p, encoding="utf-8").read()
                h.update(p.encode() + b"\0" + src.encode())
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[: -len(".__init__")]
                try:
                    tree = tested_first(ast.parse(src, filename=p))
                except SyntaxError as e:
                    raise AnalysisError(f"cannot parse {p}: {e}")
                self.modules[rel] = Module(rel, os.path.relpath(p, root), tree, src)
        self.digest = h.hexdigest()
        for m in self.modules.values():
            self._index(m)
        for c in self.classes.values():
            c.bases = [self.resolve_expr_dotted(b, c.module) for b in c.node.bases]
        for c in self.classes.values():
            for b in c.bases:
                if b in self.classes:
                    self.subclasses.setdefault(b, []).append(c.qual)
        for c in self.classes.values():
            self._class_attrs(c)
        self.method_index = {}
        for q, f in self.funcs.items():
            if f.cls is not None:
                self.method_index.setdefault(f.name, []).append(q)

    # ------------------------------------------------------------------ indexing
    def _index(self, m):
        pkg = m.dotted if m.path.endswith("__init__.py") else m.dotted.rpartition(".")[0]
        for st in ast.walk(m.tree):
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.aliases[a.asname] = a.name
                    else:
                        m.aliases[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(st, ast.ImportFrom):
                mod = st.module or ""
                if st.level:
                    parts = pkg.split(".")
                    parts = parts[: len(parts) - (st.level - 1)]
                    mod = ".".join(parts + ([mod] if mod else []))
                for a in st.names:
                    m.aliases[a.asname or a.name] = f"{mod}.{a.name}"
        self._index_body(m, m.tree.body)

    def _index_body(self, m, body):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                m.funcs[st.name] = st
                q = f"{m.dotted}.{st.name}"
                self.funcs[q] = Func(q, st, m)
            elif isinstance(st, ast.ClassDef):
                m.classes[st.name] = st
                q = f"{m.dotted}.{st.name}"
                c = Cls(q, st, m)
                self.classes[q] = c
                for s in st.body:
                    if isinstance(s, ast.FunctionDef):
                        f = Func(f"{q}.{s.name}", s, m, c)
                        c.methods[s.name] = f
                        self.funcs[f.qual] = f
                    elif isinstance(s, ast.Assign):
                        for t in s.targets:
                            if isinstance(t, ast.Name):
                                c.class_assigns[t.id] = s.value
                    elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                        c.attr_ann[s.target.id] = (s.annotation, m)
                        if s.value is not None:
                            c.class_assigns[s.target.id] = s.value
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.assigns[t.id] = st.value
                    elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(st.value, (ast.Tuple, ast.List)) and len(t.elts) == len(st.value.elts):
                        for tt, vv in zip(t.elts, st.value.elts):
                            if isinstance(tt, ast.Name):
                                m.assigns[tt.id] = vv
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                m.assigns[st.target.id] = st.value
            elif isinstance(st, (ast.If, ast.Try)):
                self._index_body(m, st.body)

    def _class_attrs(self, c):
        for f in c.methods.values():
            for st in ast.walk(f.node):
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Attribute) \
                        and isinstance(st.target.value, ast.Name) and st.target.value.id == "self":
                    c.attr_ann.setdefault(st.target.attr, (st.annotation, c.module))
                    if st.value is not None:
                        c.attr_val.setdefault(st.target.attr, (st.value, f))
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                            c.attr_val.setdefault(t.attr, (st.value, f))
        # attributes set by a helper function of the same module that is handed self
        for f in list(c.methods.values()):
            for st in ast.walk(f.node):
                if not (isinstance(st, ast.Call) and isinstance(st.func, ast.Name) and st.func.id in c.module.funcs):
                    continue
                h = self.funcs.get(f"{c.module.dotted}.{st.func.id}")
                if h is None:
                    continue
                ps = [a.arg for a in h.node.args.posonlyargs + h.node.args.args]
                names = {p for p, a in zip(ps, st.args) if isinstance(a, ast.Name) and a.id == "self"}
                names |= {k.arg for k in st.keywords if isinstance(k.value, ast.Name) and k.value.id == "self"}
                for y in ast.walk(h.node) if names else ():
                    for t in y.targets if isinstance(y, ast.Assign) else ():
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id in names:
                            v = y.value
                            given = dict(zip(ps, st.args)) | {k.arg: k.value for k in st.keywords}
                            c.attr_val.setdefault(t.attr, (given[v.id], f) if isinstance(v, ast.Name) and v.id in given else (v, h))

    # ------------------------------------------------------------------ names
    def canon(self, dotted, depth=0):
        """Follow re-exports: artist.field.Kinematics -> artist.field.kinematics.Kinematics."""
        if depth > 10 or dotted is None:
            return dotted
        if dotted in self.modules or dotted in self.funcs or dotted in self.classes:
            return dotted
        parts = dotted.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mod = ".".join(parts[:i])
            if mod in self.modules:
                m = self.modules[mod]
                nm = parts[i]
                rest = parts[i + 1:]
                if nm in m.classes or nm in m.funcs or nm in m.assigns:
                    return dotted
                if nm in m.aliases and m.aliases[nm] != ".".join(parts[: i + 1]):
                    return self.canon(".".join([m.aliases[nm]] + rest), depth + 1)
                return dotted
        return dotted

    def resolve_name(self, name, m):
        if name in m.funcs or name in m.classes or name in m.assigns:
            return f"{m.dotted}.{name}"
        if name in m.aliases:
            return self.canon(m.aliases[name])
        return None

    def resolve_expr_dotted(self, e, m):
        if isinstance(e, ast.Name):
            return self.resolve_name(e.id, m)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr_dotted(e.value, m)
            return self.canon(f"{b}.{e.attr}") if b else None
        return None

    def const(self, dotted):
        """(True, value) when dotted is a module-level literal constant of the repo."""
        mod, _, nm = (dotted or "").rpartition(".")
        m = self.modules.get(mod)
        if m is None or nm not in m.assigns:
            return False, None
        return self._lit(m.assigns[nm], m, 0)

    def _lit(self, e, m, d):
        if d > 6:
            return False, None
        if isinstance(e, ast.Constant):
            return True, e.value
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            ok, v = self._lit(e.operand, m, d + 1)
            return (True, -v) if ok and isinstance(v, (int, float)) else (False, None)
        if isinstance(e, ast.Name):
            dd = self.resolve_name(e.id, m)
            if dd:
                return self.const(dd)
        if isinstance(e, ast.Attribute):
            dd = self.resolve_expr_dotted(e, m)
            if dd:
                return self.const(dd)
        if isinstance(e, ast.Tuple):
            vs = [self._lit(x, m, d + 1) for x in e.elts]
            if all(o for o, _ in vs):
                return True, tuple(v for _, v in vs)
        if isinstance(e, ast.JoinedStr):
            vs = [self._lit(x.value if isinstance(x, ast.FormattedValue) else x, m, d + 1) for x in e.values]
            if all(o for o, _ in vs):
                return True, "".join(str(v) for _, v in vs)
        if isinstance(e, ast.BinOp):
            a, b = self._lit(e.left, m, d + 1), self._lit(e.right, m, d + 1)
            if a[0] and b[0]:
                try:
                    return True, {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y,
                                  ast.Div: lambda x, y: x / y, ast.Pow: lambda x, y: x ** y}[type(e.op)](a[1], b[1])
                except Exception:
                    return False, None
        return False, None

    # ------------------------------------------------------------------ classes
    def mro(self, q):
        out, todo = [], [q]
        while todo:
            x = todo.pop(0)
            if x in self.classes and x not in out:
                out.append(x)
                todo.extend(b for b in self.classes[x].bases if b)
        return out

    def find_method(self, clsq, name):
        for c in self.mro(clsq):
            if name in self.classes[c].methods:
                return self.classes[c].methods[name]
        return None

    def all_subclasses(self, q):
        out, todo = [], [q]
        while todo:
            x = todo.pop()
            for s in self.subclasses.get(x, []):
                if s not in out:
                    out.append(s)
                    todo.append(s)
        return out

    # ------------------------------------------------------------------ types
    def ann_type(self, e, m):
        """Type term for an annotation: ('cls',q) | ('list',T) | ('dict',T) | ('tuple',[T]) | ('ext',dotted) | None."""
        if e is None:
            return None
        if isinstance(e, ast.Constant):
            if isinstance(e.value, str):
                try:
                    return self.ann_type(ast.parse(e.value, mode="eval").body, m)
                except SyntaxError:
                    return None
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            a, b = self.ann_type(e.left, m), self.ann_type(e.right, m)
            return b if b and b[0] == "cls" and not (a and a[0] == "cls") else a or b
        if isinstance(e, ast.Subscript):
            h = ast.unparse(e.value)
            sl = e.slice
            if h in ("list", "List", "Sequence", "Iterable", "set", "Iterator", "Generator"):
                el = sl.elts[0] if isinstance(sl, ast.Tuple) else sl
                return ("list", self.ann_type(el, m))
            if h in ("dict", "Dict", "Mapping", "defaultdict"):
                if isinstance(sl, ast.Tuple) and len(sl.elts) == 2:
                    return ("dict", self.ann_type(sl.elts[1], m))
                return ("dict", None)
            if h in ("tuple", "Tuple"):
                els = sl.elts if isinstance(sl, ast.Tuple) else [sl]
                if len(els) == 2 and isinstance(els[1], ast.Constant) and els[1].value is Ellipsis:
                    return ("list", self.ann_type(els[0], m))
                return ("tuple", tuple(self.ann_type(x, m) for x in els))
            if h in ("Optional",):
                return self.ann_type(sl, m)
            if h in ("type", "Type"):
                return None
            if h in ("Union",):
                ts = [t for t in (self.ann_type(x, m) for x in (sl.elts if isinstance(sl, ast.Tuple) else [sl])) if t]
                return next((t for t in ts if t[0] == "cls"), ts[0] if ts else None)
            return None
        if isinstance(e, (ast.Name, ast.Attribute)):
            d = self.resolve_expr_dotted(e, m)
            if d in self.classes:
                return ("cls", d)
            if isinstance(e, ast.Name) and e.id in ("list", "dict", "tuple", "str", "int", "float", "bool"):
                return ("list", None) if e.id == "list" else ("dict", None) if e.id == "dict" else ("ext", e.id)
            if isinstance(e, ast.Name) and e.id == "Self":
                return ("self",)
            if d:
                return ("ext", d)
        return None

    def attr_type(self, clsq, attr):
        for c in self.mro(clsq):
            ci = self.classes[c]
            if attr in ci.attr_ann:
                a, m = ci.attr_ann[attr]
                t = self.ann_type(a, m)
                if t:
                    return t
            if attr in ci.attr_val:
                v, f = ci.attr_val[attr]
                t = self.expr_type(v, f)
                if t:
                    return t
            if attr in ci.methods and ci.methods[attr].is_property:
                return self.ann_type(ci.methods[attr].node.returns, ci.module)
        # attribute declared only in a subclass
        hits = set()
        for s in self.all_subclasses(clsq):
            ci = self.classes[s]
            if attr in ci.attr_ann:
                hits.add(self.ann_type(*ci.attr_ann[attr]))
            elif attr in ci.attr_val:
                v, f = ci.attr_val[attr]
                hits.add(self.expr_type(v, f))
        hits.discard(None)
        return hits.pop() if len(hits) == 1 else None

    def expr_type(self, e, f):
        if isinstance(e, ast.Name):
            if e.id in f.annots:
                return self.ann_type(f.annots[e.id], f.module)
            return None
        if isinstance(e, ast.Call):
            d = self.resolve_expr_dotted(e.func, f.module)
            if d in self.classes:
                return ("cls", d)
            if d in self.funcs:
                return self.ret_type(self.funcs[d])
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name):
            return None
        return None

    def ret_type(self, f):
        t = self.ann_type(f.node.returns, f.module)
        if t == ("self",) and f.cls:
            return ("cls", f.cls.qual)
        return t

    def func(self, qual):
        f = self.funcs.get(qual)
        if f is None:
            raise AnalysisError(f"anchor vanished: function {qual}")
        return f

    def find_func(self, *quals):
        for q in quals:
            if q in self.funcs:
                return self.funcs[q]
        raise AnalysisError(f"anchor vanished: none of {quals}")

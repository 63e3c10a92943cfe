"""Which values differ between ranks: an interprocedural information-flow interpretation of the multi-process code.

Levels: 0 = identical on every rank, 1 = identical on the ranks that process the same heliostat groups, 2 = rank-local.  The analysis assumes
the distributed and nested flags to be set, joins both branches of every other condition, tracks implicit flows through branch, loop and early
exit conditions, and follows calls into every function of the package that runs a collective or assigns persistent state."""
from __future__ import annotations

import ast
from dataclasses import dataclass

KEYS = {"rank": 2, "heliostat_group_rank": 2, "process_subgroup": 1, "heliostat_group_world_size": 1, "world_size": 0,
        "groups_to_ranks_mapping": 0, "ranks_to_groups_mapping": 0, "device": 0}
COLLECTIVES = {"all_reduce", "broadcast", "all_gather", "all_gather_object", "barrier", "reduce", "reduce_scatter", "all_to_all", "scatter",
               "gather", "gather_object", "broadcast_object_list", "scatter_object_list", "new_group", "all_gather_into_tensor", "send", "recv"}
MUTATORS = {"append", "extend", "update", "add", "insert", "setdefault", "pop", "appendleft"}
PERSISTENT = {"rotation_deviation_parameters", "nurbs_control_points", "motor_positions", "optimizable_parameters", "surface_points", "surface_normals"}
TRUE, FALSE = "true", "false"


@dataclass(frozen=True)
class V:
    lvl: int = 0
    aliases: frozenset = frozenset()
    elts: tuple | None = None
    tag: str | None = None
    cell: int | None = None

    def up(self, n):
        if n <= self.lvl and self.elts is None:
            return self
        return V(max(n, self.lvl), self.aliases, None if self.elts is None else tuple(e.up(n) for e in self.elts), self.tag, self.cell)


def join(*vs):
    vs = [v for v in vs if v is not None]
    if not vs:
        return V()
    if len(vs) == 1:
        return vs[0]
    n = {len(v.elts) if v.elts is not None else -1 for v in vs}
    elts = None
    if len(n) == 1 and -1 not in n:
        elts = tuple(join(*[v.elts[i] for v in vs]) for i in range(n.pop()))
    tag = vs[0].tag if all(v.tag == vs[0].tag for v in vs) else None
    return V(max(v.lvl for v in vs), frozenset().union(*[v.aliases for v in vs]), elts, tag,
             vs[0].cell if all(v.cell == vs[0].cell for v in vs) else None)


def mix(vs):
    """A value computed from others."""
    return V(max([v.lvl for v in vs], default=0), frozenset().union(*[v.aliases for v in vs]) if vs else frozenset())


class State:
    def __init__(self):
        self.env, self.cells, self.fields = {}, {}, {}

    def copy(self):
        s = State()
        s.env, s.cells, s.fields = dict(self.env), dict(self.cells), dict(self.fields)
        return s

    def merge(self, o):
        s = State()
        shared = {}
        for k in {**self.env, **o.env}:
            a, b = self.env.get(k), o.env.get(k)
            if a is not None and b is not None and a.cell != b.cell and a.cell is not None and b.cell is not None:
                v = join(V(self.cells.get(a.cell, 0), a.aliases, a.elts, a.tag), V(o.cells.get(b.cell, 0), b.aliases, b.elts, b.tag))
                s.env[k] = V(v.lvl, v.aliases, v.elts, v.tag, a.cell)
                shared[a.cell] = max(shared.get(a.cell, 0), v.lvl)
            else:
                s.env[k] = join(a, b) if a is not None and b is not None else (a or b)
        for k in {**self.cells, **o.cells}:
            s.cells[k] = max(self.cells.get(k, 0), o.cells.get(k, 0), shared.get(k, 0))
        for k in {**self.fields, **o.fields}:
            s.fields[k] = max(self.fields.get(k, 0), o.fields.get(k, 0))
        return s

    def key(self):
        return (tuple(sorted((k, self.cells.get(v.cell, v.lvl), v.elts and tuple(e.lvl for e in v.elts)) for k, v in self.env.items())),
                tuple(sorted(self.fields.items())))


class Ranks:
    def __init__(self, repo, distributed=True, nested=True):
        self.repo = repo
        self.flags = {"is_distributed": distributed, "is_nested": distributed and nested}
        self.keys = dict(KEYS) if nested else {**KEYS, "heliostat_group_rank": 0, "process_subgroup": 0, "heliostat_group_world_size": 0}
        self.steps = {}      # (function, file, line) -> (gradient level, scale problem)
        self.reductions = {}  # call key -> problem with the identity element / source of the data
        self.coll = {}       # (file, line, name) -> (ok, control level, required level, text)
        self.srcs = {}
        self.ncell = 0
        self.depth = 0
        self.stack = []
        self.analysed = set()
        self.unresolved = set()
        self._inl = {}
        self.loops = {}

    # ---- helpers
    def newcell(self):
        self.ncell += 1
        return self.ncell

    def dotted(self, e, m):
        try:
            return self.repo.resolve_expr_dotted(e, m)
        except Exception:
            return None

    def wants_inline(self, f, seen=frozenset()):
        if f.qual in self._inl:
            return self._inl[f.qual]
        if f.qual in seen:
            return False
        self._inl[f.qual] = False
        r = False
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                d = ast.unparse(n.func)
                if self.coll_name(n, f.module):
                    r = True
                g = self.callee(n, f, None)
                if g is not None and g.qual != f.qual and self.wants_inline(g, seen | {f.qual}):
                    r = True
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                if any(isinstance(t, ast.Attribute) and t.attr in PERSISTENT for t in ts) and f.name != "__init__":
                    r = True
        if f.qual.startswith("artist.optim.") and f.name != "__init__":
            r = True
        self._inl[f.qual] = r
        return r

    def coll_name(self, call, m):
        d = self.dotted(call.func, m) or ast.unparse(call.func)
        if d and d.startswith("torch.distributed"):
            return d.rsplit(".", 1)[-1] if d.rsplit(".", 1)[-1] in COLLECTIVES else None
        return None

    def callee(self, call, f, st):
        fn = call.func
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in ("self", "cls") and f.cls:
            c = f.cls if isinstance(f.cls, str) else f.cls.qual
            return self.repo.find_method(c, fn.attr)
        d = self.dotted(fn, f.module)
        if d:
            try:
                g = self.repo.find_func(d)
            except Exception:
                g = None
            if g is not None:
                return g
        if isinstance(fn, ast.Attribute):
            c = [g for g in self.by_name().get(fn.attr, []) if g.cls]
            try:
                t = self.repo.expr_type(fn.value, f)
            except Exception:
                t = None
            if isinstance(t, str):
                g = self.repo.find_method(t, fn.attr)
                if g is not None:
                    return g
            if len(c) == 1:
                return c[0]
        return None

    def by_name(self):
        if not hasattr(self, "_bn"):
            self._bn = {}
            for f in self.repo.funcs.values():
                self._bn.setdefault(f.name, []).append(f)
        return self._bn

    # ---- functions
    def call(self, f, args, st, ctl):
        """args: name -> V.  Returns value."""
        if self.depth > 12 or f.qual in self.stack:
            return mix(list(args.values())).up(ctl)
        self.analysed.add(f.qual)
        self.depth += 1
        self.stack.append(f.qual)
        saved = st.env
        st.env = {}
        for p in f.params + [x for x in (f.vararg, f.kwarg) if x]:
            v = args.get(p)
            if v is None:
                v = V()
            ann = f.annots.get(p)
            if ann is not None and ast.unparse(ann).split(".")[-1].strip("'\"") == "DdpSetup":
                v = V(0, tag="ddp")
            if v.cell is None:
                v = V(v.lvl, v.aliases, v.elts, v.tag, self.newcell())
                st.cells[v.cell] = v.lvl
            st.env[p] = v
        if "self" in args:
            st.env["self"] = args["self"]
        frame = {"f": f, "ret": [], "local": {}}
        self.block(f.node.body, st, ctl, frame)
        st.env = saved
        self.depth -= 1
        self.stack.pop()
        r = join(*frame["ret"]) if frame["ret"] else V()
        return r

    # ---- statements; return the control level of exits taken inside: (loop exit level, function exit level), None = no exit
    def block(self, body, st, ctl, fr):
        lo = fo = 0
        for s in body:
            a, b = self.stmt(s, st, max(ctl, lo, fo), fr)
            lo, fo = max(lo, a), max(fo, b)
            if self.ends(s, st, ctl, fr):
                break
        return lo, fo

    def ends(self, s, st, ctl, fr):
        """Control never passes the statement, given the flags."""
        if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            return True
        if isinstance(s, ast.If):
            t = self.ev(s.test, st, ctl, fr).tag
            x = any(self.ends(y, st, ctl, fr) for y in s.body)
            y = any(self.ends(y, st, ctl, fr) for y in s.orelse)
            return x if t == TRUE else y if t == FALSE else x and y
        return False

    def stmt(self, s, st, ctl, fr):
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return 0, 0
            v = self.ev(s.value, st, ctl, fr)
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                self.assign(t, v, st, ctl, fr)
        elif isinstance(s, ast.AugAssign):
            old = self.ev(s.target, st, ctl, fr)
            v = self.ev(s.value, st, ctl, fr)
            t = ("div", v.tag[1]) if isinstance(s.op, ast.Div) and isinstance(v.tag, tuple) and v.tag[0] == "ws" else None
            self.assign(s.target, V(max(old.lvl, v.lvl), old.aliases | v.aliases, None, t, None), st, ctl, fr, aug=True)
        elif isinstance(s, ast.Expr):
            self.ev(s.value, st, ctl, fr)
        elif isinstance(s, ast.Return):
            v = self.ev(s.value, st, ctl, fr) if s.value is not None else V()
            fr["ret"].append(v.up(ctl))
            return 0, ctl
        elif isinstance(s, (ast.Break, ast.Continue)):
            return ctl, 0
        elif isinstance(s, ast.If):
            return self.do_if(s, st, ctl, fr)
        elif isinstance(s, ast.For):
            return self.do_for(s, st, ctl, fr)
        elif isinstance(s, ast.While):
            return self.do_while(s, st, ctl, fr)
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr, st, ctl, fr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, st, ctl, fr)
            return self.block(s.body, st, ctl, fr)
        elif isinstance(s, ast.Try):
            a, b = self.block(s.body, st, ctl, fr)
            for h in s.handlers:
                st2 = st.copy()
                self.block(h.body, st2, ctl, fr)
                m = st.merge(st2)
                st.env, st.cells, st.fields = m.env, m.cells, m.fields
            x = self.block(s.orelse, st, ctl, fr)
            y = self.block(s.finalbody, st, ctl, fr)
            return max(a, x[0], y[0]), max(b, x[1], y[1])
        elif isinstance(s, ast.FunctionDef):
            fr["local"][s.name] = s
        elif isinstance(s, ast.Match):
            v = self.ev(s.subject, st, ctl, fr)
            lo = fo = 0
            base = st.copy()
            out = base
            for c in s.cases:
                s2 = base.copy()
                a, b = self.block(c.body, s2, max(ctl, v.lvl), fr)
                lo, fo = max(lo, a), max(fo, b)
                out = out.merge(s2)
            st.env, st.cells, st.fields = out.env, out.cells, out.fields
            return lo, fo
        return 0, 0

    def assign(self, t, v, st, ctl, fr, aug=False):
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, mix([v]), st, ctl, fr)
                else:
                    self.assign(x, v.elts[i] if v.elts is not None and i < len(v.elts) and len(v.elts) == len(t.elts) else V(v.lvl, v.aliases), st, ctl, fr)
        elif isinstance(t, ast.Name):
            if v.cell is not None and v.lvl < ctl:
                v = V(v.lvl, v.aliases, v.elts, v.tag)
            v = v.up(ctl)
            if v.cell is None or aug:
                old = st.env.get(t.id)
                c = old.cell if aug and old is not None and old.cell is not None else self.cellfor(t, fr)
                v = V(v.lvl, v.aliases, v.elts, v.tag, c)
                st.cells[c] = v.lvl
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            lvl = max(v.lvl, ctl)
            name = t.attr
            base = self.ev(t.value, st, ctl, fr)
            if ctl > 0 or base.lvl > 0:
                lvl = max(lvl, base.lvl, st.fields.get(name, 0)) if not (name == "grad" and isinstance(v.tag, tuple) and v.tag[0] == "reduced") else lvl
            st.fields[name] = lvl
            if name == "grad":
                if isinstance(v.tag, tuple) and v.tag[0] == "div":
                    st.fields["@scale:" + v.tag[1]] = st.fields.get("@scale:" + v.tag[1], 0) - 1
                elif isinstance(v.tag, tuple) and v.tag[0] == "reduced":
                    st.fields["@scale:" + v.tag[1]] = 1
        elif isinstance(t, ast.Subscript):
            i = self.ev(t.slice, st, ctl, fr)
            self.raise_to(t.value, max(v.lvl, ctl, i.lvl), st, ctl, fr, v.aliases)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, ctl, fr)

    def deref(self, v, st):
        if v.cell is None:
            return v
        n = st.cells.get(v.cell, 0)
        return V(n, v.aliases, None if v.elts is None or n < v.lvl else v.elts, v.tag, v.cell)

    def cellfor(self, node, fr):
        k = ("cell", id(node), tuple(self.stack))
        if k not in self.loops:
            self.loops[k] = self.newcell()
        return self.loops[k]

    def raise_to(self, e, lvl, st, ctl, fr, aliases=frozenset()):
        """Weak update of the object e denotes."""
        if isinstance(e, ast.Name):
            v = st.env.get(e.id)
            if v is not None:
                if v.cell is not None:
                    st.cells[v.cell] = max(st.cells.get(v.cell, 0), lvl)
                st.env[e.id] = V(max(v.lvl, lvl), v.aliases | aliases, None if v.elts is None else tuple(x.up(lvl) for x in v.elts), v.tag, v.cell)
        elif isinstance(e, ast.Attribute):
            st.fields[e.attr] = max(st.fields.get(e.attr, 0), lvl)
        elif isinstance(e, (ast.Subscript, ast.Starred)):
            self.raise_to(e.value, lvl, st, ctl, fr, aliases)
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            self.raise_to(e.func.value, lvl, st, ctl, fr, aliases)

    def set_to(self, e, lvl, st, ctl, fr):
        """Strong update: afterwards the object is identical on the ranks that took part."""
        lvl = max(lvl, ctl)
        if isinstance(e, ast.Name):
            v = st.env.get(e.id)
            if v is not None:
                c = v.cell if v.cell is not None else self.newcell()
                st.cells[c] = lvl
                for k, w in list(st.env.items()):
                    if w.cell == c:
                        st.env[k] = V(lvl, w.aliases, None, w.tag, c)
                st.env[e.id] = V(lvl, v.aliases, None, v.tag, c)
                for a in v.aliases & PERSISTENT:
                    st.fields[a] = lvl
        elif isinstance(e, ast.Attribute):
            st.fields[e.attr] = lvl
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("detach", "contiguous", "data"):
            self.set_to(e.func.value, lvl, st, ctl, fr)

    def do_if(self, s, st, ctl, fr):
        t = self.ev(s.test, st, ctl, fr)
        if t.tag == TRUE:
            return self.block(s.body, st, ctl, fr)
        if t.tag == FALSE:
            return self.block(s.orelse, st, ctl, fr)
        c = max(ctl, t.lvl)
        st2 = st.copy()
        n1, n2 = self.none_refine(s.test)
        if n1 is not None:
            self.set_field(st, n1, t.lvl)
        a, b = self.block(s.body, st, c, fr)
        if n2 is not None:
            self.set_field(st2, n2, t.lvl)
        x, y = self.block(s.orelse, st2, c, fr)
        m = st.merge(st2)
        st.env, st.cells, st.fields = m.env, m.cells, m.fields
        z = s.body if n1 == "grad" else s.orelse if n2 == "grad" else []
        if any(isinstance(q, ast.Assign) and any(isinstance(t2, ast.Attribute) and t2.attr == "grad" for t2 in q.targets) for q in z) or \
                (n2 == "grad" and any(isinstance(q, ast.Continue) for q in z)):
            st.fields["@missing"] = 0
        return max(a, x), max(b, y)

    def set_field(self, st, name, lvl):
        st.fields[name] = lvl

    def none_refine(self, test):
        """Field that is None in the (then, else) branch."""
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None \
                and isinstance(test.left, ast.Attribute):
            if isinstance(test.ops[0], ast.Is):
                return test.left.attr, None
            if isinstance(test.ops[0], ast.IsNot):
                return None, test.left.attr
        return None, None

    def elem(self, v):
        if v.tag == "enum":
            return V(v.lvl, v.aliases, (V(v.elts[0].lvl), self.elem(v.elts[1])))
        if v.tag == "enumg":
            return V(v.lvl, v.aliases, v.elts)
        if isinstance(v.tag, tuple) and v.tag[0] == "rangeg":
            return V(v.lvl, v.aliases, tag=("idx", v.tag[1]))
        if v.tag == "zip":
            return V(v.lvl, v.aliases, tuple(self.elem(x) for x in v.elts))
        if v.elts is not None:
            return join(*v.elts) if v.elts else V(v.lvl)
        return V(v.lvl, v.aliases)

    def do_for(self, s, st, ctl, fr):
        it = self.ev(s.iter, st, ctl, fr)
        if it.elts and isinstance(s.iter, (ast.Tuple, ast.List, ast.Name)) and it.tag is None and not any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(s)):
            # the elements of a display, one after the other
            lo = fo = 0
            for v in it.elts:
                self.assign(s.target, v, st, ctl, fr)
                a, b = self.block(s.body, st, max(ctl, lo, fo), fr)
                lo, fo = max(lo, a), max(fo, b)
            a, b = self.block(s.orelse, st, ctl, fr)
            return max(lo, a), max(fo, b)
        c = max(ctl, st.fields.get("@optimizer", 0) if self.of_optimizer(s.iter) else it.lvl)
        fo = lo_all = 0
        for _ in range(8):
            before = st.key()
            self.assign(s.target, self.elem(it), st, c, fr)
            lo, f2 = self.block(s.body, st, c, fr)
            c2 = max(c, lo, f2)
            fo = max(fo, f2)
            if c2 == c and st.key() == before:
                break
            c = c2
        a, b = self.block(s.orelse, st, c, fr)
        return a, max(fo, b)

    def of_optimizer(self, e):
        """Parameter lists of an optimizer: their length is fixed by its construction, not by the values of the parameters."""
        return (isinstance(e, ast.Attribute) and e.attr == "param_groups") or (isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and e.slice.value == "params")

    def do_while(self, s, st, ctl, fr):
        c = ctl
        fo = 0
        for _ in range(10):
            before = st.key()
            t = self.ev(s.test, st, c, fr)
            c2 = max(c, t.lvl)
            pre = st.copy()
            lo, f2 = self.block(s.body, st, c2, fr)
            fo = max(fo, f2)
            m = st.merge(pre)
            st.env, st.cells, st.fields = m.env, m.cells, m.fields
            c2 = max(c2, lo, f2)
            if c2 == c and st.key() == before:
                break
            c = c2
        return 0, fo

    # ---- expressions
    def ev(self, e, st, ctl, fr):
        if e is None or isinstance(e, (ast.Constant, ast.JoinedStr)):
            if isinstance(e, ast.Constant) and e.value is True:
                return V(tag=TRUE)
            if isinstance(e, ast.Constant) and e.value is False:
                return V(tag=FALSE)
            if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)):
                return V(tag=("num", float(e.value)))
            return V()
        if isinstance(e, ast.Name):
            v = st.env.get(e.id)
            if v is None:
                d = self.dotted(e, fr["f"].module)
                ok, c = self.repo.const(d) if d and d.startswith("artist.") else (False, None)
                if ok and isinstance(c, (int, float)) and not isinstance(c, bool):
                    return V(tag=("num", float(c)))
                return V(tag="ddp") if e.id == "ddp_setup" else V()
            return self.deref(v, st)
        if isinstance(e, ast.Attribute):
            d = self.dotted(e, fr["f"].module)
            if d and d.startswith("artist."):
                ok, c = self.repo.const(d)
                if ok and isinstance(c, (int, float)) and not isinstance(c, bool):
                    return V(tag=("num", float(c)))
            b = self.ev(e.value, st, ctl, fr)
            if e.attr == "ddp_setup":
                return V(tag="ddp")
            if e.attr == "grad":
                return V(max(b.lvl, st.fields.get("grad", 0)), frozenset({"grad"}))
            lvl = max(b.lvl, st.fields.get(e.attr, 0))
            if e.attr.startswith("active_") or e.attr == "preferred_reflection_directions":
                lvl = max(lvl, st.fields.get("@active", 0))
            al = b.aliases if e.attr in ("data", "T", "mT") else frozenset({e.attr})
            if b.aliases and e.attr in ("param_groups", "parameters", "state"):
                al = b.aliases
            tag = b.tag if isinstance(b.tag, tuple) and b.tag[0] == "el" else "groups" if e.attr == "heliostat_groups" else None
            if e.attr in ("inf",):
                tag = ("num", float("inf"))
            return V(lvl, al, None, tag, None)
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, st, ctl, fr)
            if b.tag == "ddp":
                k = e.slice.value if isinstance(e.slice, ast.Constant) else None
                if k is None:
                    d = self.dotted(e.slice, fr["f"].module)
                    try:
                        k = self.repo.const(d)[1]
                    except Exception:
                        k = None
                if k in self.flags:
                    return V(tag=TRUE if self.flags[k] else FALSE)
                if k == "ranks_to_groups_mapping":
                    return V(tag="r2g")
                if k in ("world_size", "heliostat_group_world_size"):
                    return V(self.keys[k], tag=("ws", k))
                if k == "groups_to_ranks_mapping":
                    return V(tag="g2r")
                if k == "process_subgroup":
                    return V(1, tag="sub")
                if k == "rank":
                    return V(2, tag="rank")
                return V(self.keys.get(k, 2))
            i = self.ev(e.slice, st, ctl, fr)
            if isinstance(i.tag, tuple) and i.tag[0] == "idx":
                if b.tag == "r2g":
                    return V(i.lvl, tag=("ranks", i.tag[1]))
                if b.tag == "groups":
                    return V(max(b.lvl, i.lvl), b.aliases, tag=("el", i.tag[1]))
            if isinstance(b.tag, tuple) and b.tag[0] == "ranks" and i.lvl == 0 and (i.tag == ("num", 0.0) or i.tag == ("num", -1.0)):
                return V(b.lvl, tag=("src", b.tag[1]))
            if b.tag == "g2r" and i.tag == "rank":
                return V(1)
            if b.elts is not None and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and -len(b.elts) <= e.slice.value < len(b.elts):
                return b.elts[e.slice.value]
            return V(max(b.lvl, i.lvl), b.aliases)
        if isinstance(e, ast.Call):
            return self.ev_call(e, st, ctl, fr)
        if isinstance(e, (ast.Tuple, ast.List)):
            vs = [self.ev(x, st, ctl, fr) for x in e.elts]
            m = mix(vs)
            return V(m.lvl, m.aliases, tuple(vs) if isinstance(e, ast.Tuple) else None)
        if isinstance(e, ast.BoolOp):
            vs = [self.ev(x, st, ctl, fr) for x in e.values]
            if isinstance(e.op, ast.And):
                if any(v.tag == FALSE for v in vs):
                    return V(tag=FALSE)
                r = [v for v in vs if v.tag != TRUE]
                return mix(r) if r else V(tag=TRUE)
            if any(v.tag == TRUE for v in vs):
                return V(tag=TRUE)
            r = [v for v in vs if v.tag != FALSE]
            return mix(r) if r else V(tag=FALSE)
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, st, ctl, fr)
            if isinstance(e.op, ast.Not) and v.tag in (TRUE, FALSE):
                return V(tag=FALSE if v.tag == TRUE else TRUE)
            return V(v.lvl, v.aliases)
        if isinstance(e, ast.Compare):
            vs = [self.ev(x, st, ctl, fr) for x in [e.left] + e.comparators]
            if len(vs) == 2 and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
                if "grad" in vs[0].aliases:
                    return V(max(1, vs[0].lvl if vs[0].lvl < 2 else 1))
                # whether an argument was passed is the same everywhere
                if vs[0].tag == "ddp":
                    return V()
            return mix(vs)
        if isinstance(e, ast.IfExp):
            t = self.ev(e.test, st, ctl, fr)
            if t.tag == TRUE:
                return self.ev(e.body, st, ctl, fr)
            if t.tag == FALSE:
                return self.ev(e.orelse, st, ctl, fr)
            return join(self.ev(e.body, st, max(ctl, t.lvl), fr), self.ev(e.orelse, st, max(ctl, t.lvl), fr)).up(t.lvl)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            saved = dict(st.env)
            c = ctl
            g = e.generators[0]
            if len(e.generators) == 1 and not g.ifs and not isinstance(e, (ast.DictComp, ast.SetComp)):
                it = self.ev(g.iter, st, c, fr)
                if it.elts and isinstance(g.iter, (ast.Tuple, ast.List, ast.Name)) and it.tag is None:
                    vs = []
                    for v in it.elts:
                        self.assign(g.target, v, st, c, fr)
                        vs.append(self.ev(e.elt, st, c, fr))
                    st.env = saved
                    m = mix(vs)
                    return V(m.lvl, m.aliases, tuple(vs))
            for g in e.generators:
                it = self.ev(g.iter, st, c, fr)
                c = max(c, it.lvl)
                self.assign(g.target, self.elem(it), st, c, fr)
                for i in g.ifs:
                    c = max(c, self.ev(i, st, c, fr).lvl)
            vs = [self.ev(e.key, st, c, fr), self.ev(e.value, st, c, fr)] if isinstance(e, ast.DictComp) else [self.ev(e.elt, st, c, fr)]
            st.env = saved
            r = mix(vs).up(c)
            g = e.generators[0]
            if isinstance(e, ast.ListComp) and len(e.generators) == 1 and not g.ifs and isinstance(g.iter, ast.Call) and len(g.iter.args) == 1 \
                    and ast.unparse(g.iter.func) == "range" and self.ev(g.iter.args[0], st, ctl, fr).tag == ("ws", "world_size"):
                return V(r.lvl, r.aliases, tag="per rank")
            return r
        if isinstance(e, ast.BinOp):
            l, r = self.ev(e.left, st, ctl, fr), self.ev(e.right, st, ctl, fr)
            m = mix([l, r])
            if isinstance(e.op, ast.Mult) and isinstance(e.left, ast.List) and r.tag == ("ws", "world_size"):
                return V(m.lvl, m.aliases, tag="per rank")
            t = ("div", r.tag[1]) if isinstance(e.op, ast.Div) and isinstance(r.tag, tuple) and r.tag[0] == "ws" else None
            return V(m.lvl, m.aliases, tag=t)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, st, ctl, fr)
            self.assign(e.target, v, st, ctl, fr)
            return v
        if isinstance(e, ast.Lambda):
            return V()
        return mix([self.ev(x, st, ctl, fr) for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr)])

    def ev_call(self, e, st, ctl, fr):
        f = fr["f"]
        cn = self.coll_name(e, f.module)
        if cn:
            return self.collective(cn, e, st, ctl, fr)
        d = self.dotted(e.func, f.module) or ""
        if d == "torch.distributed.get_rank":
            return V(2, tag="rank")
        if d.startswith("torch.distributed."):
            return V()
        if isinstance(e.func, ast.Name) and e.func.id in fr["local"]:
            node = fr["local"][e.func.id]
            for x in e.args + [k.value for k in e.keywords]:
                self.ev(x, st, ctl, fr)
            saved = dict(st.env)
            names = [a.arg for a in node.args.args]
            for n, x in zip(names, e.args):
                st.env[n] = self.ev(x, st, ctl, fr)
            for k in e.keywords:
                if k.arg:
                    st.env[k.arg] = self.ev(k.value, st, ctl, fr)
            sub = {"f": f, "ret": [], "local": dict(fr["local"])}
            if len(self.stack) < 14:
                self.stack.append("<local>")
                self.block(node.body, st, ctl, sub)
                self.stack.pop()
            st.env = {k: st.env.get(k, v) if k not in names else v for k, v in saved.items()}
            return join(*sub["ret"]) if sub["ret"] else V()
        if isinstance(e.func, ast.Name) and e.func.id == "enumerate" and e.args:
            v = self.ev(e.args[0], st, ctl, fr)
            if v.tag == "groups":
                return V(v.lvl, v.aliases, (V(v.lvl, tag=("idx", id(e))), V(v.lvl, v.aliases, tag=("el", id(e)))), "enumg")
            return V(v.lvl, v.aliases, (V(v.lvl), v), "enum")
        if isinstance(e.func, ast.Name) and e.func.id == "zip":
            vs = [self.ev(x, st, ctl, fr) for x in e.args]
            m = mix(vs)
            return V(m.lvl, m.aliases, tuple(vs), "zip")
        if isinstance(e.func, ast.Name) and e.func.id == "range" and len(e.args) == 1:
            a = e.args[0]
            if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "len" and a.args:
                v = self.ev(a.args[0], st, ctl, fr)
                if v.tag == "groups":
                    return V(v.lvl, tag=("rangeg", id(e)))
            if isinstance(a, ast.Attribute) and a.attr == "number_of_heliostat_groups":
                return V(self.ev(a, st, ctl, fr).lvl, tag=("rangeg", id(e)))
        if isinstance(e.func, ast.Name) and e.func.id == "float" and len(e.args) == 1 and isinstance(e.args[0], ast.Constant):
            try:
                return V(tag=("num", float(e.args[0].value)))
            except ValueError:
                return V()
        if d in ("torch.zeros", "torch.zeros_like", "torch.full", "torch.full_like", "torch.ones", "torch.ones_like"):
            vs = [self.ev(x, st, ctl, fr) for x in e.args] + [self.ev(k.value, st, ctl, fr) for k in e.keywords if k.arg not in ("device", "dtype")]
            fill = 0.0 if "zeros" in d else 1.0 if "ones" in d else None
            if "full" in d:
                x = next((self.ev(k.value, st, ctl, fr) for k in e.keywords if k.arg == "fill_value"), self.ev(e.args[1], st, ctl, fr) if len(e.args) > 1 else V())
                fill = x.tag[1] if isinstance(x.tag, tuple) and x.tag[0] == "num" else None
            return V(max([v.lvl for v in vs], default=0), tag=("fill", fill))
        if d.endswith("cast") and len(e.args) == 2:
            return self.ev(e.args[1], st, ctl, fr)
        recv = self.ev(e.func.value, st, ctl, fr) if isinstance(e.func, ast.Attribute) else (self.ev(e.func, st, ctl, fr) if not isinstance(e.func, ast.Name) else V())
        if isinstance(e.func, ast.Attribute) and recv.tag == "ddp" and e.func.attr == "get" and e.args:
            return self.ev(ast.Subscript(value=e.func.value, slice=e.args[0], ctx=ast.Load()), st, ctl, fr)
        if isinstance(e.func, ast.Attribute) and recv.tag == "g2r" and e.func.attr == "get" and e.args:
            return self.ev(ast.Subscript(value=e.func.value, slice=e.args[0], ctx=ast.Load()), st, ctl, fr)
        pos = [self.ev(x.value if isinstance(x, ast.Starred) else x, st, ctl, fr) for x in e.args]
        kw = {k.arg: self.ev(k.value, st, ctl, fr) for k in e.keywords}
        g = self.callee(e, f, st)
        if isinstance(e.func, ast.Attribute) and e.func.attr == "step" and g is not None and not (isinstance(recv.tag, tuple) and recv.tag[0] == "cls"):
            g = None
        if g is not None and self.wants_inline(g) and not g.is_abstract:
            args = {}
            params = list(g.posparams)
            if params and params[0] in ("self", "cls") and not g.is_static:
                args[params[0]] = recv
                params = params[1:]
            for p, v in zip(params, pos):
                args[p] = v
            for k, v in kw.items():
                if k:
                    args[k] = v
            return self.call(g, args, st, ctl).up(ctl if ctl > 0 else 0)
        allv = [recv] + pos + list(kw.values())
        m = mix(allv)
        if isinstance(e.func, ast.Attribute):
            n = e.func.attr
            if n == "backward":
                # a loss computed from reduced values has a rank-local graph all the same
                st.fields["grad"] = 2 if st.fields.get("@graph", 0) else max(recv.lvl, ctl)
                if ctl <= 1 and not st.fields.get("@graph", 0):
                    st.fields["@missing"] = 0
            elif n == "zero_grad":
                st.fields["grad"] = ctl
                st.fields["@missing"] = 1
                for k in ("world_size", "heliostat_group_world_size"):
                    st.fields["@scale:" + k] = 0
            elif n == "step":
                lvl = max(m.lvl, ctl)
                if recv.tag == "opt":
                    k = (f.qual, f.file, e.lineno)
                    sc = [x for x in ("world_size", "heliostat_group_world_size") if st.fields.get("@scale:" + x, 0) != 0]
                    o = self.steps.get(k, (0, ""))
                    self.steps[k] = (max(o[0], st.fields.get("grad", 0), ctl), o[1] or (sc and f"gradients are not divided exactly once by {sc[0]} after their reduction") or "")
                if recv.aliases & PERSISTENT or "scheduler" not in ast.unparse(e.func.value):
                    lvl = max(lvl, st.fields.get("grad", 0) if not e.args and not e.keywords else 0)
                self.raise_to(e.func.value, lvl, st, ctl, fr)
                for a in recv.aliases & PERSISTENT:
                    st.fields[a] = max(st.fields.get(a, 0), lvl)
                return V(lvl)
            elif n in MUTATORS:
                self.raise_to(e.func.value, max(m.lvl, ctl), st, ctl, fr, m.aliases - recv.aliases)
            elif n.endswith("_") and not n.startswith("_") and n != "requires_grad_":
                self.raise_to(e.func.value, max(m.lvl, ctl), st, ctl, fr)
            elif n in ("activate_heliostats",) or n.startswith("align_"):
                st.fields["@active"] = max(max([v.lvl for v in pos + list(kw.values())], default=0), ctl, recv.lvl)
            # a persistent tensor read through a copy keeps its identity for optimizers only through requires_grad_ / containers
            if n in ("clone", "sum", "mean", "item", "size", "cpu", "numpy", "tolist"):
                m = V(m.lvl)
        elif isinstance(e.func, ast.Name) and e.func.id in ("range", "len", "int", "float", "sum", "max", "min", "str"):
            m = V(m.lvl)
        if d in self.repo.classes:
            return V(m.lvl, m.aliases, None, ("cls", d))
        if d.startswith("torch.optim.") and d.count(".") == 2 and d.rsplit(".", 1)[-1][:1].isupper():
            # the parameters are read when the optimizer is built; their values do not change how many there are
            st.fields["@optimizer"] = max(ctl, st.fields.get("@optimizer", 0))
            return V(m.lvl, m.aliases, None, "opt")
        return V(m.lvl, m.aliases)

    def collective(self, name, e, st, ctl, fr):
        f = fr["f"]
        kw = {k.arg: k.value for k in e.keywords}
        pos = list(e.args)
        gidx = {"all_reduce": 2, "broadcast": 2, "all_gather": 2, "all_gather_object": 2, "barrier": 0, "reduce": 3}.get(name)
        g = kw.get("group")
        if g is None and gidx is not None and len(pos) > gidx:
            g = pos[gidx]
        req = 0
        bad = ""
        if name == "new_group":
            req = 0
        elif g is not None and not (isinstance(g, ast.Constant) and g.value is None):
            gv = self.ev(g, st, ctl, fr)
            req = 1
            if gv.tag != "sub":
                bad = "runs on a process group that is not the one of the heliostat group; "
        if ctl > req:
            bad += f"is executed under a condition that differs between the ranks of its process group ({['all ranks', 'ranks of a heliostat group', 'each rank'][ctl]})"
        k = (f.qual, f.file, e.lineno, ast.unparse(e.func) + "(" + ast.unparse((pos + list(kw.values()))[0] if pos or kw else ast.Constant(value="")) + ")")
        old = self.coll.get(k, "")
        self.coll[k] = old or bad
        out = req
        if name in ("all_reduce", "broadcast"):
            t = kw.get("tensor", pos[0] if pos else None)
            tv = self.ev(t, st, ctl, fr) if t is not None else V()
            if name == "broadcast":
                s = kw.get("src", pos[1] if len(pos) > 1 else None)
                sv = self.ev(s, st, ctl, fr) if s is not None else V()
                if not (isinstance(sv.tag, tuple) and sv.tag[0] == "src" and tv.tag == ("el", sv.tag[1])):
                    self.reductions[k] = "the source is not a rank that processes the heliostat group whose data is broadcast"
                else:
                    self.reductions.setdefault(k, "")
                if sv.lvl > req:
                    self.coll[k] = self.coll[k] or "the source rank differs between ranks"
            dt = ast.unparse(e.func)
            ret = None
            if name == "all_reduce":
                o = kw.get("op", pos[1] if len(pos) > 1 else None)
                o = "SUM" if o is None else ast.unparse(o).rsplit(".", 1)[-1]
                fill = tv.tag[1] if isinstance(tv.tag, tuple) and tv.tag[0] == "fill" else "?"
                if fill != "?":
                    ident = {"SUM": 0.0, "MIN": float("inf"), "MAX": float("-inf")}.get(o)
                    self.reductions[k] = self.reductions.get(k) or ("" if fill == ident else f"entries of other ranks are {fill}, which changes the {o} reduction")
                else:
                    self.reductions.setdefault(k, "")
                if "grad" in tv.aliases:
                    if st.fields.get("@missing", 0):
                        self.coll[k] = self.coll[k] or "fails or is skipped on a rank whose parameter received no gradient"
                    w = "heliostat_group_world_size" if req else "world_size"
                    if o == "SUM":
                        if "functional" in (self.dotted(e.func, f.module) or dt):
                            ret = ("reduced", w)
                        else:
                            st.fields["@scale:" + w] = 1
                    elif o != "AVG":
                        self.reductions[k] = "gradients are not summed"
            if "functional" in (self.dotted(e.func, f.module) or dt):
                st.fields["@graph"] = 1
            if "functional" not in (self.dotted(e.func, f.module) or dt):
                if t is not None:
                    self.set_to(t, out, st, ctl, fr)
            return V(max(out, ctl), tv.aliases, tag=ret)
        if name in ("all_gather", "all_gather_object"):
            o = pos[0] if pos else kw.get("object_list", kw.get("tensor_list"))
            if o is not None:
                if self.ev(o, st, ctl, fr).tag != "per rank":
                    self.reductions[k] = "the list that receives the gathered objects does not have one entry per rank"
                else:
                    self.reductions.setdefault(k, "")
                self.set_to(o, out, st, ctl, fr)
                if isinstance(o, ast.Name) and o.id in st.env:
                    v = st.env[o.id]
                    st.env[o.id] = V(v.lvl, v.aliases, v.elts, "gathered", v.cell)
            return V(out)
        if name == "new_group":
            for x in pos + list(kw.values()):
                if self.ev(x, st, ctl, fr).lvl > 0:
                    self.coll[k] = self.coll[k] or "the members of the process group differ between ranks"
            return V(1, tag="sub")
        return V(out)

"""Gated value-flow graphs.

A function body is turned into hash-consed value nodes (global value numbering) plus an ordered list of
events (calls, attribute stores, item stores, raises, returns), each with the conditions it is control
dependent on and its lexical context (loops, with, try/finally).  Helpers that are private or that did not
exist when the rules were written are inlined, so extracting code into a helper does not change the graph.
Nothing is executed and no path is handed to a solver: conditions stay uninterpreted.
"""
from __future__ import annotations

import ast
import itertools
import json
import os

from .repo import AnalysisError, Func, Repo

_INTERN = {}


class N:
    """A value node.  k: kind, a: tuple of children (N, str, const, nested tuples)."""
    __slots__ = ("k", "a", "loc", "_subs", "_id")
    _ctr = itertools.count()

    def __new__(cls, k, *a, loc=None):
        key = (k, a)
        try:
            n = _INTERN.get(key)
        except TypeError:
            a = tuple(repr(x) if isinstance(x, (list, dict, set)) else x for x in a)
            key = (k, a)
            n = _INTERN.get(key)
        if n is None:
            n = object.__new__(cls)
            n.k, n.a, n.loc, n._subs, n._id = k, a, loc, None, next(cls._ctr)
            _INTERN[key] = n
        elif n.loc is None and loc is not None:
            n.loc = loc
        return n

    def kids(self):
        def rec(t):
            for x in t:
                if isinstance(x, N):
                    yield x
                elif isinstance(x, tuple):
                    yield from rec(x)
        return rec(self.a)

    def subs(self):
        """All nodes reachable (including self)."""
        if self._subs is None:
            out, todo = set(), [self]
            while todo:
                x = todo.pop()
                if x in out:
                    continue
                out.add(x)
                if x._subs is not None:
                    out |= x._subs
                    continue
                todo.extend(x.kids())
            self._subs = frozenset(out)
        return self._subs

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._id

    def __eq__(self, o):
        return self is o


class Typed:
    """Constant key that distinguishes 1, 1.0 and True."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Typed) and type(self.v) is type(o.v) and repr(self.v) == repr(o.v)

    def __hash__(self):
        return hash((type(self.v).__name__, repr(self.v)))

    def __repr__(self):
        return repr(self.v)


def const(v, loc=None):
    return N("const", Typed(v), loc=loc)


NONE = const(None)
UNDEF = N("undef")


_ANY = object()


def is_const(n, v=_ANY):
    if n is None or n.k != "const":
        return False
    return v is _ANY or (type(n.a[0].v) is type(v) and n.a[0].v == v)


def cval(n):
    return n.a[0].v if n is not None and n.k == "const" else None


def num(n):
    """Numeric constant value or None."""
    if n is not None and n.k == "const" and isinstance(n.a[0].v, (int, float)) and not isinstance(n.a[0].v, bool):
        return n.a[0].v
    if n is not None and n.k == "un" and n.a[0] == "-":
        v = num(n.a[1])
        return -v if v is not None else None
    return None


def show(n, d=0):
    if not isinstance(n, N):
        return repr(n)
    if d > 7:
        return "…"
    s = lambda x: show(x, d + 1)
    k, a = n.k, n.a
    if k == "const":
        return repr(a[0].v)
    if k == "param":
        return a[1]
    if k == "global":
        return a[0]
    if k == "attr":
        return f"{s(a[0])}.{a[1]}"
    if k == "sub":
        return f"{s(a[0])}[{s(a[1])}]"
    if k == "slice":
        return ":".join("" if is_const(x, None) else s(x) for x in a)
    if k in ("tuple", "list", "set"):
        b = {"tuple": "()", "list": "[]", "set": "{}"}[k]
        return b[0] + ", ".join(s(x) for x in a) + b[1]
    if k == "dict":
        return "{" + ", ".join(f"{s(x)}: {s(y)}" for x, y in a[0]) + "}"
    if k == "bin":
        if len(a) == 2:
            return f"({s(a[1])} {a[0]} 0)"
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if k == "un":
        return f"{a[0]}{s(a[1])}"
    if k == "cmp":
        if len(a) == 2:
            return f"({s(a[1])} {a[0]} 0)"
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if k == "bool":
        return "(" + f" {a[0]} ".join(s(x) for x in a[1]) + ")"
    if k == "phi":
        return f"φ({s(a[0])} ? {s(a[1])} : {s(a[2])})"
    if k in ("rcall", "op"):
        nm = a[0].rpartition(".")[2] if k == "rcall" else a[0]
        return f"{nm}(" + ", ".join((f"{p}={s(v)}" if not p.isdigit() else s(v)) for p, v in a[1]) + ")"
    if k == "xcall":
        return f"{s(a[0])}(" + ", ".join((f"{p}={s(v)}" if not p.isdigit() else s(v)) for p, v in a[1]) + ")"
    if k == "elem":
        return f"elem<{s(a[0])}>"
    if k == "idx":
        return f"idx<{s(a[0])}>"
    if k == "update":
        return f"{s(a[0])}{{[{s(a[1])}]:={s(a[2])}}}"
    if k == "comp":
        return f"{a[0]}⟨{s(a[1])} for {', '.join(s(x) for x in a[2])}{' if …' if a[3] else ''}⟩"
    if k == "append":
        return f"{s(a[0])}⊕{s(a[1])}"
    if k == "col":
        return f"{s(a[0])}[:,{a[1]}]"
    if k == "poly":
        return "{" + " + ".join((f"{v}*" if v != 1 or not kk else "") + "*".join(s(x) + (f"^{e}" if e != 1 else "") for x, e in kk) for kk, v in a[0]) + "}"
    if k == "loopvar":
        return f"λ{a[0]}"
    if k == "loopout":
        return f"out({s(a[2])}←{s(a[3])})"
    if k == "alloc":
        return f"#{a[0]}"
    return f"{k}({', '.join(s(x) if isinstance(x, N) else str(x) for x in a)})"


# ---------------------------------------------------------------------------- op normalisation
SIG = {
    "sum": ("input", "dim", "keepdim"), "mean": ("input", "dim", "keepdim"), "median": ("input", "dim", "keepdim"),
    "unsqueeze": ("input", "dim"), "squeeze": ("input", "dim"), "repeat_interleave": ("input", "repeats", "dim"),
    "index_select": ("input", "dim", "index"), "clamp": ("input", "min", "max"), "clip": ("input", "min", "max"),
    "cat": ("tensors", "dim"), "stack": ("tensors", "dim"), "norm": ("input", "p", "dim"),
    "gather": ("input", "dim", "index"), "scatter_add": ("input", "dim", "index", "src"),
    "scatter_add_": ("input", "dim", "index", "src"), "index_add_": ("input", "dim", "index", "source"),
    "cross": ("input", "other", "dim"), "softmax": ("input", "dim"), "argmax": ("input", "dim"), "argmin": ("input", "dim"),
    "flip": ("input", "dims"), "cumsum": ("input", "dim"), "cumprod": ("input", "dim"), "prod": ("input", "dim"),
    "where": ("condition", "input", "other"), "atan2": ("input", "other"), "full": ("size", "fill_value"),
    "full_like": ("input", "fill_value"), "linspace": ("start", "end", "steps"), "any": ("input", "dim"),
    "all": ("input", "dim"), "max": ("input", "dim"), "min": ("input", "dim"), "amax": ("input", "dim"), "amin": ("input", "dim"),
    "split": ("input", "split_size_or_sections", "dim"), "flatten": ("input", "start_dim", "end_dim"),
    "chunk": ("input", "chunks", "dim"), "unbind": ("input", "dim"), "dot": ("input", "other"), "equal": ("input", "other"),
    "allclose": ("input", "other", "rtol", "atol"), "einsum": ("equation",), "normalize": ("input", "p", "dim", "eps"),
    "searchsorted": ("sorted_sequence", "input"), "bincount": ("input", "weights", "minlength"), "diff": ("input", "n", "dim"),
    "masked_fill": ("input", "mask", "value"), "masked_fill_": ("input", "mask", "value"), "nonzero": ("input",),
    "torch.nn.functional.normalize": ("input", "p", "dim", "eps"), "torch.nn.functional.pad": ("input", "pad", "mode", "value"),
    "torch.nn.functional.cosine_similarity": ("x1", "x2", "dim"), "torch.linalg.norm": ("input", "ord", "dim"),
    "torch.linalg.cross": ("input", "other", "dim"),
    "torch.distributed.broadcast": ("tensor", "src", "group"), "torch.distributed.all_reduce": ("tensor", "op", "group"),
    "torch.distributed.all_gather_object": ("object_list", "obj", "group"),
    "tensor": ("data",), "sort": ("input", "dim", "descending"), "argsort": ("input", "dim"), "tile": ("input", "dims"),
    "expand": ("input",), "roll": ("input", "shifts", "dims"), "transpose": ("input", "dim0", "dim1"), "unique": ("input",),
    "zeros_like": ("input",), "ones_like": ("input",), "empty_like": ("input",), "rand_like": ("input",),
}
SYN = {"clip": "clamp", "torch.linalg.cross": "cross", "torch.linalg.norm": "norm", "arctan2": "atan2", "arccos": "acos", "arcsin": "asin",
       "arctan": "atan", "absolute": "abs", "concatenate": "cat", "concat": "cat", "greater": "gt", "less": "lt", "multiply": "mul",
       "subtract": "sub", "divide": "div", "true_divide": "div", "negative": "neg", "math.sqrt": "sqrt", "math.cos": "cos", "math.sin": "sin",
       "math.tan": "tan", "math.atan2": "atan2", "numpy.sqrt": "sqrt"}
BINOPS = {"add": "+", "sub": "-", "mul": "*", "div": "/", "matmul": "@", "pow": "**", "remainder": "%", "floor_divide": "//", "bmm": "@"}
CMPOPS = {"eq": "==", "lt": "<", "le": "<=", "gt": ">", "ge": ">=", "ne": "!="}
LOGOPS = {"logical_and": "&", "logical_or": "|", "bitwise_and": "&", "bitwise_or": "|"}
COMM = {"+", "*", "&", "|"}
INPLACE_LIST = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "add", "popitem", "discard"}
DUAL = {"add", "sort", "update"}  # also tensor/ext methods


def mk_bin(op, l, r, loc=None):
    if op in COMM and _key(r) < _key(l) and not _seq(l) and not _seq(r):
        l, r = r, l
    return N("bin", op, l, r, loc=loc)


def _seq(n):
    return n.k in ("list", "tuple", "fstr", "comp") or (n.k == "const" and isinstance(n.a[0].v, str)) or \
        (n.k == "bin" and (_seq(n.a[1]) or _seq(n.a[2])))


def _key(n):
    return (0 if n.k != "const" else 1, n._id)


def mk_cmp(op, l, r, loc=None):
    if op == ">":
        op, l, r = "<", r, l
    elif op == ">=":
        op, l, r = "<=", r, l
    if op in ("==", "!=") and _key(r) < _key(l):
        l, r = r, l
    return N("cmp", op, l, r, loc=loc)


def mk_un(op, x, loc=None):
    if op == "-" and x.k == "const" and isinstance(x.a[0].v, (int, float)) and not isinstance(x.a[0].v, bool):
        return const(-x.a[0].v, loc)
    if op == "+":
        return x
    if op == "not" and x.k == "un" and x.a[0] == "not":
        return x.a[1]
    if op in ("~", "-") and x.k == "un" and x.a[0] == op:
        return x.a[1]
    return N("un", op, x, loc=loc)


def mk_op(name, pos, kws, loc=None):
    """pos: list of N; kws: dict name->N.  Normalises torch function and method spellings."""
    name = SYN.get(name, name)
    if name in ("typing.cast", "cast") and len(pos) == 2:
        return pos[1]
    if name in BINOPS and len(pos) == 2 and not kws:
        return mk_bin(BINOPS[name], pos[0], pos[1], loc)
    if name in CMPOPS and len(pos) == 2 and not kws:
        return mk_cmp(CMPOPS[name], pos[0], pos[1], loc)
    if name in LOGOPS and len(pos) == 2 and not kws:
        return mk_bin(LOGOPS[name], pos[0], pos[1], loc)
    if name in ("logical_not", "bitwise_not") and len(pos) == 1:
        return mk_un("~", pos[0], loc)
    if name == "neg" and len(pos) == 1:
        return mk_un("-", pos[0], loc)
    if name == "square" and len(pos) == 1:
        return mk_bin("**", pos[0], const(2), loc)
    sig = SIG.get(name)
    pairs = {}
    for i, p in enumerate(pos):
        pairs[sig[i] if sig and i < len(sig) else str(i)] = p
    for k, v in kws.items():
        if k == "axis":
            k = "dim"
        pairs[k] = v
    if sig:
        order = {p: i for i, p in enumerate(sig)}
        items = sorted(pairs.items(), key=lambda kv: (order.get(kv[0], 99), kv[0]))
    else:
        items = sorted(pairs.items(), key=lambda kv: (0, int(kv[0]), "") if kv[0].isdigit() else (1, 0, kv[0]))
    if name in ("clamp_min", "clamp_max") and len(items) == 2:
        return N("op", "clamp", (("input", items[0][1]), ("min" if name == "clamp_min" else "max", items[1][1])), loc=loc)
    if name == "clamp":
        items = [(k, v) for k, v in items if not is_const(v, None)]
    return N("op", name, tuple(items), loc=loc)


def arg(n, *names):
    """Argument of an rcall/op/xcall by any of the given names."""
    d = dict(n.a[1])
    for nm in names:
        if nm in d:
            return d[nm]
    return None


def first_arg(n):
    return n.a[1][0][1] if n.a[1] else None


def mk_phi(c, pol, t, f):
    if not pol:
        t, f = f, t
    if t is f:
        return t
    if t.k == "update" and f.k == "update" and t.a[0] is f.a[0] and t.a[1] is f.a[1] and len(t.a) == len(f.a) == 3:
        return N("update", t.a[0], t.a[1], mk_phi(c, True, t.a[2], f.a[2]), loc=t.loc)
    return N("phi", c, t, f)


_DECONT = {}


def without_continue(s):
    """The loop with `if c: A; continue` followed by B rewritten to `if c: A else: B`, where that is possible without copying code."""
    if not any(isinstance(x, ast.Continue) for x in ast.walk(s)):
        return s
    if id(s) in _DECONT:
        return _DECONT[id(s)][1]

    def has(b):
        if isinstance(b, ast.Continue):
            return True
        if isinstance(b, (ast.For, ast.While, ast.FunctionDef)):
            return False
        return any(has(c) for c in ast.iter_child_nodes(b))

    def block(ss):
        """(statements, always continues); None when not expressible."""
        out = []
        for i, b in enumerate(ss):
            if isinstance(b, ast.Continue):
                return out, True
            if not has(b):
                out.append(b)
                continue
            if not isinstance(b, ast.If):
                return None
            t, f = block(b.body), block(b.orelse)
            if t is None or f is None:
                return None
            rest = block(ss[i + 1:])
            if rest is None:
                return None
            (tb, td), (fb, fd) = t, f
            if (not td and any(has(x) for x in b.body)) or (not fd and any(has(x) for x in b.orelse)):
                return None
            done = rest[1]
            if td and fd:
                done = True
            elif td:
                fb = fb + rest[0]
            elif fd:
                tb = tb + rest[0]
            n = ast.If(test=b.test, body=tb or [ast.Pass()], orelse=fb)
            ast.copy_location(n, b)
            for x in n.body + n.orelse:
                if isinstance(x, ast.Pass) and not hasattr(x, "lineno"):
                    ast.copy_location(x, b)
            out.append(n)
            return out, done
        return out, False
    r = block(s.body)
    new = s
    if r is not None:
        import copy
        new = copy.copy(s)
        new.body = r[0] or [ast.copy_location(ast.Pass(), s)]
    _DECONT[id(s)] = (s, new)
    return new


def norm_cond(n, pol=True):
    """[(atom, polarity)] of a conjunction equivalent to (n == pol); or a single opaque atom."""
    if n.k == "un" and n.a[0] == "not":
        return norm_cond(n.a[1], not pol)
    if n.k == "bool" and n.a[0] == ("and" if pol else "or"):
        out = []
        for x in n.a[1]:
            out.extend(norm_cond(x, pol))
        return out
    if n.k == "cmp":
        op, l, r = n.a
        if op == "!=":
            return [(N("cmp", "==", l, r, loc=n.loc), not pol)]
        if op == "not in":
            return [(N("cmp", "in", l, r, loc=n.loc), not pol)]
        if op == "is not":
            return [(N("cmp", "is", l, r, loc=n.loc), not pol)]
        if op == "<=":
            return [(N("cmp", "<", r, l, loc=n.loc), not pol)]
    if n.k == "op" and n.a[0] == "bool" and len(n.a[1]) == 1:
        return norm_cond(first_arg(n), pol)
    return [(n, pol)]


class Event:
    __slots__ = ("kind", "node", "pc", "ctx", "loc", "stack", "i", "x", "live")

    def __init__(self, kind, node, pc, ctx, loc, stack, i, x=None):
        self.kind, self.node, self.pc, self.ctx, self.loc, self.stack, self.i, self.x = kind, node, pc, ctx, loc, stack, i, x

    def where(self):
        return f"{self.loc[0]}:{self.loc[1]}" if self.loc else "?"

    def __repr__(self):
        return f"<{self.kind} {self.where()} {show(self.node) if self.node is not None else ''}>"


class State:
    __slots__ = ("env", "heap", "content", "pc")

    def __init__(self, env=None, heap=None, content=None, pc=()):
        self.env, self.heap, self.content, self.pc = env or {}, heap or {}, content or {}, pc

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.content), self.pc)


class Frame:
    def __init__(self, func, callsite=None):
        self.func, self.callsite, self.returns, self.yields = func, callsite, [], []
        self.locals_ = None


KNOWN_FILE = os.path.join(os.path.dirname(__file__), "known_functions.json")
_known = None


def known_functions():
    """Functions that existed when the rules were written: the only public ones that stay opaque."""
    global _known
    if _known is None:
        try:
            _known = frozenset(json.load(open(KNOWN_FILE)))
        except FileNotFoundError:
            _known = frozenset()
    return _known


class Graph:
    """Result of interpreting one root function."""

    def __init__(self, root, events, returns, final, heap0):
        self.root, self.events, self.returns, self.final = root, events, returns, final
        self.heap0 = heap0

    # -------- queries
    def ret(self):
        """Merged return value."""
        return merge_returns(self.returns)

    def calls(self, *names, live=True):
        """Call events whose callee (rcall qual suffix, or op name) is one of names."""
        out = []
        for e in self.events:
            if e.kind == "call" and callee_is(e.node, *names):
                out.append(e)
        return out

    def stores(self, attr=None):
        return [e for e in self.events if e.kind == "store_attr" and (attr is None or e.x[1] == attr)]


def callee(n):
    if n is None:
        return None
    if n.k in ("rcall", "op"):
        return n.a[0]
    return None


def callee_is(n, *names):
    c = callee(n)
    if c is None:
        return False
    for nm in names:
        if c == nm or (n.k == "rcall" and (c.endswith("." + nm))) or (n.k == "op" and c.endswith("." + nm)):
            return True
    return False


def merge_returns(rs):
    if not rs:
        return NONE
    v = rs[-1][1]
    for pc, val in reversed(rs[:-1]):
        c = [x for x in pc]
        if not c:
            v = val
            continue
        if len(c) == 1:
            v = mk_phi(c[0][0], c[0][1], val, v)
        else:
            cc = N("bool", "and", tuple(x[0] if x[1] else mk_un("not", x[0]) for x in c))
            v = mk_phi(cc, True, val, v)
    return v


MAXDEPTH = 7


def counting_loop(s):
    """`while i < n: ...; i += 1` as a `for i in range(i, n)` statement; None when the loop is anything else."""
    t = s.test
    if s.orelse or len(s.body) < 2 or not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return None
    if isinstance(t.ops[0], ast.Lt):
        i, n = t.left, t.comparators[0]
    elif isinstance(t.ops[0], ast.Gt):
        n, i = t.left, t.comparators[0]
    else:
        return None
    e = s.body[-1]
    if not isinstance(i, ast.Name):
        return None
    one = isinstance(e, ast.AugAssign) and isinstance(e.op, ast.Add) and isinstance(e.target, ast.Name) and e.target.id == i.id \
        and isinstance(e.value, ast.Constant) and e.value.value == 1 and type(e.value.value) is int
    if not one and isinstance(e, ast.Assign) and len(e.targets) == 1 and isinstance(e.targets[0], ast.Name) and e.targets[0].id == i.id:
        one = ast.unparse(e.value) in (f"{i.id} + 1", f"1 + {i.id}")
    if not one:
        return None
    body = s.body[:-1]
    bad = set()
    for b in body:
        for x in ast.walk(b):
            if isinstance(x, ast.Continue):
                return None
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                bad.add(x.id)
            if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                bad.add(ast.unparse(x))
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and not (isinstance(x.func.value, ast.Name) and x.func.value.id == "self"):
                bad.add(ast.unparse(x.func.value))
    if i.id in bad:
        return None
    for x in ast.walk(n):
        if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == "len"):
            return None
        if isinstance(x, (ast.Name, ast.Attribute, ast.Subscript)) and ast.unparse(x) in bad | {i.id}:
            return None
    import copy
    f = ast.For(target=ast.Name(id=i.id, ctx=ast.Store()), iter=ast.Call(func=ast.Name(id="range", ctx=ast.Load()), args=[i, n], keywords=[]),
                body=body, orelse=[], type_comment=None)
    ast.copy_location(f, s)
    return ast.fix_missing_locations(f)


class Interp:
    def __init__(self, repo: Repo, inline=(), opaque=(), inline_all_private=True, class_of_self=None):
        self.repo = repo
        self.inline = tuple(inline)      # qual suffixes to inline although known/public
        self.opaque = tuple(opaque)      # qual suffixes never inlined
        self.loopstack, self.loopinfo, self.loopbody = [], {}, {}
        self.subof = {}
        self.inline_private = inline_all_private
        self.class_of_self = class_of_self
        self.events = []
        self.ctx = []
        self.tries = {}
        self.frames = []
        self.alloc = itertools.count()
        self.types = {}
        self.loops = itertools.count()
        self.closures = {}
        self.pcdrop = 0

    # ------------------------------------------------------------------ entry
    def run(self, func: Func, bind=None):
        st = State()
        for p in func.params + [x for x in (func.vararg, func.kwarg) if x]:
            n = N("param", func.qual, p)
            if bind and p in bind:
                n = bind[p]
            st.env[p] = n
            if p == "self" and func.cls is not None:
                self.types[n] = ("cls", self.class_of_self or func.cls.qual)
            elif p in func.annots:
                t = self.repo.ann_type(func.annots[p], func.module)
                if t and n not in self.types:
                    self.types[n] = t
        fr = Frame(func)
        self.frames.append(fr)
        self._ctxdeco(func)
        flow = self.block(func.node.body, st)
        if "fall" in flow:
            fr.returns.append((self._local_pc(st.pc), NONE))
        self.frames.pop()
        return Graph(func, self.events, fr.returns, st, None)

    def _ctxdeco(self, func):
        for d in func.deco:
            if "no_grad" in d or "inference_mode" in d:
                self.ctx.append(("with", N("op", "no_grad", ())))

    def _local_pc(self, pc):
        return tuple((c, p) for c, p, tag in pc)

    # ------------------------------------------------------------------ helpers
    def loc(self, node):
        return (self.frames[-1].func.file, getattr(node, "lineno", 0))

    def ev(self, kind, node, st, astnode, x=None):
        e = Event(kind, node, st.pc, tuple(self.ctx), self.loc(astnode), tuple(f.func.qual for f in self.frames), len(self.events), x)
        self.events.append(e)
        return e

    def new_alloc(self, value, st):
        if value.k == "alloc":
            return value
        a = N("alloc", next(self.alloc))
        st.content[a] = value
        t = self.typeof(value)
        if t:
            self.types[a] = t
        return a

    def snap(self, v, st):
        """Value of a location right now (alloc references replaced by their content)."""
        seen = 0
        while v in st.content and seen < 50:
            w = st.content[v]
            if w is v:
                break
            if v.k != "alloc":
                return self.resolve(w, st)
            v = w
            seen += 1
        return self.resolve(v, st)

    def resolve(self, v, st):
        while v.k == "phi":
            hit = False
            for c, pol, _ in st.pc:
                if c is v.a[0]:
                    v = v.a[1] if pol else v.a[2]
                    hit = True
                    break
            if not hit:
                return v
            while v.k == "alloc":
                v = st.content[v]
        return v

    # ------------------------------------------------------------------ types
    def typeof(self, n, d=0):
        if n in self.types:
            return self.types[n]
        t = None
        if d < 12:
            t = self._typeof(n, d)
        if t is not None:
            self.types[n] = t
        return t

    def _typeof(self, n, d):
        r = self.repo
        if n.k == "attr":
            bt = self.typeof(n.a[0], d + 1)
            if bt and bt[0] == "cls":
                return r.attr_type(bt[1], n.a[1])
        elif n.k == "rcall":
            q = n.a[0]
            if q in r.classes:
                return ("cls", q)
            if q in r.funcs:
                return r.ret_type(r.funcs[q])
        elif n.k in ("elem", "sub"):
            bt = self.typeof(n.a[0], d + 1)
            if bt and bt[0] in ("list", "dict"):
                if n.k == "elem" and bt[0] == "dict":
                    return ("ext", "key")
                if n.k == "sub" and n.a[1].k == "slice":
                    return bt
                return bt[1]
            if bt and bt[0] == "tuple" and n.k == "sub" and num(n.a[1]) is not None:
                i = int(num(n.a[1]))
                if -len(bt[1]) <= i < len(bt[1]):
                    return bt[1][i]
        elif n.k == "phi":
            return self.typeof(n.a[1], d + 1) or self.typeof(n.a[2], d + 1)
        elif n.k in ("loopvar", "loopout"):
            for x in n.a:
                if isinstance(x, N) and x.k != "undef":
                    t = self.typeof(x, d + 1)
                    if t:
                        return t
        elif n.k == "comp":
            return ("dict", self.typeof(n.a[1].a[1], d + 1)) if n.a[0] == "dict" and n.a[1].k == "tuple" else ("list", self.typeof(n.a[1], d + 1))
        elif n.k == "append":
            return self.typeof(n.a[0], d + 1)
        elif n.k == "list" and n.a:
            return ("list", self.typeof(n.a[0], d + 1))
        elif n.k == "const":
            return ("ext", type(n.a[0].v).__name__)
        elif n.k == "fstr":
            return ("ext", "str")
        return None

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        flow = {"fall"}
        for s in stmts:
            f = self.stmt(s, st)
            flow.discard("fall")
            flow |= f
            if "fall" not in f:
                break
        return flow

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            for e in ast.iter_child_nodes(s):
                if isinstance(e, ast.expr):
                    self.expr(e, st)
            return {"fall"}
        return m(s, st) or {"fall"}

    def s_Pass(self, s, st):
        pass

    def s_Import(self, s, st):
        pass

    s_ImportFrom = s_Global = s_Nonlocal = s_Import

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        self.expr(s.value, st)

    def aliasing(self, e):
        return isinstance(e, (ast.Name, ast.Attribute, ast.Constant)) or (isinstance(e, ast.Subscript))

    def s_Assign(self, s, st):
        if isinstance(s.value, ast.Tuple) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) \
                and len(s.value.elts) == len(s.targets[0].elts) and not any(isinstance(x, ast.Starred) for x in s.value.elts + s.targets[0].elts):
            vals = [self.rhs(e, st) for e in s.value.elts]
            for t, v in zip(s.targets[0].elts, vals):
                self.assign(t, v, st, s)
            return
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.targets[0].elts) == len(s.value.elts) \
                and not any(isinstance(x, ast.Starred) for x in s.targets[0].elts + s.value.elts):
            vs = [self.rhs(e, st) for e in s.value.elts]
            for t, v in zip(s.targets[0].elts, vs):
                self.assign(t, v, st, s)
            return
        v = self.rhs(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)

    def rhs(self, e, st):
        v = self.expr(e, st)
        if not self.aliasing(e) and v.k not in ("alloc", "const", "global", "closure", "param", "elem", "attr"):
            v = self.new_alloc(v, st)
        return v

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.rhs(s.value, st)
            t = self.repo.ann_type(s.annotation, self.frames[-1].func.module)
            if t and t[0] in ("cls", "list", "dict") and self.typeof(v) is None:
                self.types[v] = t
            self.assign(s.target, v, st, s)

    def s_AugAssign(self, s, st):
        old = self.expr(self._load(s.target), st)
        r = self.expr(s.value, st)
        op = OPS[type(s.op)]
        ov = self.snap(old, st)
        if op == "+" and self._is_list(ov):
            v = N("extend", ov, self.snap(r, st), loc=self.loc(s))
        else:
            v = mk_bin(op, ov, self.snap(r, st), self.loc(s))
        self.ev("aug", v, st, s, (ov, self.snap(r, st), op, isinstance(s.target, ast.Name)))
        if isinstance(s.target, ast.Name):
            st.env[s.target.id] = self.new_alloc(v, st)
        else:
            self.assign(s.target, self.new_alloc(v, st), st, s)

    def _is_list(self, v):
        t = self.typeof(v)
        return bool(t and t[0] == "list")

    def _load(self, t):
        import copy
        x = copy.deepcopy(t)
        for n in ast.walk(x):
            if hasattr(n, "ctx"):
                n.ctx = ast.Load()
        return x

    def assign(self, t, v, st, s):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            sv = self.snap(v, st)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            for i, x in enumerate(t.elts):
                if star and i == star[0]:
                    self.assign(x.value, self.mk_sub(sv, N("slice", const(i), NONE, NONE), st), st, s)
                else:
                    j = i if not star or i < star[0] else i - len(t.elts)
                    w = self.tuple_item(sv, j, st)
                    if isinstance(x, ast.Name) and isinstance(s, ast.Assign) and w.k in ("op", "bin", "un", "update", "list", "dict", "comp"):
                        w = self.new_alloc(w, st)
                    self.assign(x, w, st, s)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, s)
        elif isinstance(t, ast.Attribute):
            b = self.expr(t.value, st)
            b = self.path(b, st)
            old = st.heap.get((b, t.attr))
            st.heap[(b, t.attr)] = v
            self.ev("store_attr", self.snap(v, st), st, s, (b, t.attr, self.snap(b, st), old))
        elif isinstance(t, ast.Subscript):
            b = self.expr(t.value, st)
            i = self.index(t.slice, st)
            self.setitem(b, i, self.snap(v, st), st, s, t.value)

    def path(self, b, st):
        """Location used as a heap key."""
        if b.k == "alloc":
            c = st.content.get(b)
            if c is not None and c.k in ("attr", "param", "elem", "global", "alloc"):
                return self.path(c, st)
            if c is not None and c.k == "sub":
                return c
        return b

    def setitem(self, b, i, v, st, s, texpr):
        old = self.snap(b, st)
        new = N("update", old, i, v, loc=self.loc(s))
        self.ev("store_sub", v, st, s, (self.path(b, st), i, old))
        self.write_loc(b, new, st, texpr)

    def write_loc(self, b, new, st, texpr=None):
        """The object denoted by b now has value new."""
        if b.k == "alloc":
            # follow alias chain
            t = self.types.get(b)
            st.content[b] = new
            if t:
                self.types.setdefault(new, t)
        else:
            t = self.typeof(b)
            if t:
                self.types.setdefault(new, t)
            st.content[b] = new
            # container element of another object: propagate outward
            if isinstance(texpr, ast.Name) and b in self.subof and new.k in ("append", "extend", "mut", "list"):
                # an element of a container, held by a name
                while b in self.subof and b.k != "alloc":
                    b, oi = self.subof[b]
                    new = N("update", self.snap(b, st), oi, new)
                    self.write_loc(b, new, st)
            if texpr is not None and isinstance(texpr, ast.Subscript):
                ob = self.expr(texpr.value, st, quiet=True)
                oi = self.index(texpr.slice, st, quiet=True)
                oold = self.snap(ob, st)
                self.write_loc(ob, N("update", oold, oi, new), st, texpr.value)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env[t.id] = UNDEF

    def s_Return(self, s, st):
        v = self.snap(self.expr(s.value, st), st) if s.value is not None else NONE
        fr = self.frames[-1]
        base = len(getattr(fr, "entry_pc", ()))
        fr.returns.append((tuple((c, p) for c, p, tag in st.pc[base:]), v))
        fr.ret_states = getattr(fr, "ret_states", [])
        fr.ret_states.append((tuple((c, p) for c, p, tag in st.pc[base:]), st.copy()))
        self.ev("return", v, st, s)
        return {"return"}

    def s_Raise(self, s, st):
        v = self.expr(s.exc, st) if s.exc is not None else NONE
        self.ev("raise", self.snap(v, st), st, s)
        return {"raise"}

    def s_Assert(self, s, st):
        c = self.snap(self.expr(s.test, st), st)
        self.ev("assert", c, st, s)
        st.pc = st.pc + tuple((x, p, "raise") for x, p in norm_cond(c))

    def s_Break(self, s, st):
        if self.loopstack:
            lf = self.loopstack[-1]
            lf["breaks"].append((st.pc[lf["base"]:], st.copy()))
        return {"break"}

    def s_Continue(self, s, st):
        if self.loopstack:
            lf = self.loopstack[-1]
            lf["continues"].append((st.pc[lf["base"]:], st.copy()))
        return {"continue"}

    def _conj(self, pcs):
        """Node of the conjunction of path-condition entries."""
        xs = [c if p else N("un", "not", c) for c, p, t in pcs if t != "raise"]
        if not xs:
            return None
        return xs[0] if len(xs) == 1 else N("bool", "and", tuple(xs))

    def _join_continues(self, lf, flow, st):
        """State at the end of the loop body: fall-through merged with every `continue`."""
        cs = list(lf["continues"])
        if not cs:
            return
        if "fall" not in flow:
            _, last = cs.pop()
            st.env, st.heap, st.content, st.pc = last.env, last.heap, last.content, last.pc
        for pcs, cst in reversed(cs):
            c = self._conj(pcs)
            if c is None:
                st.env, st.heap, st.content, st.pc = cst.env, cst.heap, cst.content, cst.pc
                continue
            b = st.copy()
            pc = b.pc
            self.merge(c, cst, b, st)
            st.pc = pc

    def s_FunctionDef(self, s, st):
        f = Func(self.frames[-1].func.qual + ".<locals>." + s.name, s, self.frames[-1].func.module)
        n = N("closure", f.qual, s.lineno)
        self.closures[n] = (f, st)
        st.env[s.name] = n

    def s_ClassDef(self, s, st):
        pass

    def s_If(self, s, st):
        c = self.snap(self.expr(s.test, st), st)
        return self.branch(c, s, lambda x: self.block(s.body, x), lambda x: self.block(s.orelse, x), st)

    def known(self, atoms, st):
        """True/False when the conjunction `atoms` is decided by the current path condition."""
        res = True
        pc = {(c): p for c, p, _ in st.pc}
        for a, p in atoms:
            if a.k == "const":
                if bool(a.a[0].v) != p:
                    return False
                continue
            if a in pc:
                if pc[a] != p:
                    return False
            else:
                res = None
        return res

    def branch(self, c, s, fa, fb, st):
        pos = norm_cond(c, True)
        neg = norm_cond(c, False)
        k = self.known(pos, st)
        if k is None and len(neg) >= 1 and self.known(neg, st) is True:
            k = False
        if k is True:
            return fa(st)
        if k is False:
            return fb(st)
        base = st.pc
        a, b = st.copy(), st.copy()
        a.pc = base + tuple((x, p, "if") for x, p in pos)
        b.pc = base + tuple((x, p, "if") for x, p in neg)
        la, lb = len(a.pc), len(b.pc)
        fl1 = fa(a)
        fl2 = fb(b)
        a_f, b_f = "fall" in fl1, "fall" in fl2
        out = (fl1 | fl2)
        if a_f and b_f:
            self.merge(c, a, b, st)
            # assumptions established inside both branches are dropped; raise-guards inside one are conditional
            st.pc = base + self._extra(a.pc[la:], b.pc[lb:])
        elif a_f or b_f:
            src, conds, dead, ln = (a, pos, fl2, la) if a_f else (b, neg, fl1, lb)
            st.env, st.heap, st.content = src.env, src.heap, src.content
            tag = "raise" if dead <= {"raise"} else "return" if dead <= {"raise", "return"} else "loop"
            st.pc = base + tuple((x, p, tag) for x, p in conds) + src.pc[ln:]
            out.add("fall")
        else:
            out.discard("fall")
        return out

    def _extra(self, ea, eb):
        """Conditions that hold after the merge because they were established on both sides."""
        sb = {(c, p) for c, p, _ in eb}
        return tuple((c, p, t) for c, p, t in ea if (c, p) in sb)

    def merge(self, c, a, b, st):
        atoms = norm_cond(c, True)
        if len(atoms) == 1:
            cc, pol = atoms[0]
        else:
            cc, pol = c, True
        content = {}
        for k in set(a.content) | set(b.content):
            va, vb = a.content.get(k), b.content.get(k)
            if va is vb:
                content[k] = va
            elif va is None or vb is None:
                if k.k == "alloc":
                    content[k] = va if va is not None else vb
                else:
                    content[k] = mk_phi(cc, pol, va if va is not None else k, vb if vb is not None else k)
            else:
                content[k] = mk_phi(cc, pol, va, vb)
        st.content = content
        for attr_, x, y in (("env", a.env, b.env),):
            env = {}
            for k in set(x) | set(y):
                va, vb = x.get(k, UNDEF), y.get(k, UNDEF)
                if va is vb:
                    env[k] = va
                else:
                    na, nb = self.snap(va, a), self.snap(vb, b)
                    v = mk_phi(cc, pol, na, nb)
                    if v.k == "phi":
                        t = self.typeof(va) or self.typeof(vb)
                        if t:
                            self.types.setdefault(v, t)
                        v = self.new_alloc(v, st)
                    elif va.k == "alloc" and na is nb:
                        v = va
                    env[k] = v
            st.env = env
        heap = {}
        for k in set(a.heap) | set(b.heap):
            va, vb = a.heap.get(k), b.heap.get(k)
            if va is vb:
                heap[k] = va
                continue
            init = N("attr", self.snap(k[0], a) if k[0].k == "alloc" else k[0], k[1])
            na = self.snap(va, a) if va is not None else init
            nb = self.snap(vb, b) if vb is not None else init
            v = mk_phi(cc, pol, na, nb)
            heap[k] = self.new_alloc(v, st) if v.k == "phi" else v
        st.heap = heap

    # ---- loops
    def s_For(self, s, st):
        s = without_continue(s)
        it = self.snap(self.expr(s.iter, st), st)
        self.ev("for", it, st, s)
        un = self.unrollable(it, s)
        if un is not None:
            flow = {"fall"}
            for v in un:
                self.assign(s.target, v, st, s)
                f = self.block(s.body, st)
                flow = (flow - {"fall"}) | f
                if "fall" not in f:
                    break
            if s.orelse and "fall" in flow:
                flow = (flow - {"fall"}) | self.block(s.orelse, st)
            return flow
        return self.loop(s, it, st)

    def unrollable(self, it, s):
        """Elements of a literal display / constant range, when the loop has no break or continue."""
        if any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(s)):
            return None
        if it.k in ("tuple", "list") and 0 < len(it.a) <= 24 and not any(x.k == "star" for x in it.a):
            return list(it.a)
        if it.k == "op" and it.a[0] == "enumerate" and first_arg(it).k in ("tuple", "list") and 0 < len(first_arg(it).a) <= 24:
            return [N("tuple", const(i), x) for i, x in enumerate(first_arg(it).a)]
        if it.k == "op" and it.a[0] == "zip" and all(v.k in ("tuple", "list") for _, v in it.a[1]) and it.a[1]:
            m = min(len(v.a) for _, v in it.a[1])
            if 0 < m <= 24:
                return [N("tuple", *[v.a[i] for _, v in it.a[1]]) for i in range(m)]
        if it.k == "op" and it.a[0] == "items" and first_arg(it).k == "dict" and 0 < len(first_arg(it).a[0]) <= 24:
            return [N("tuple", x, y) for x, y in first_arg(it).a[0]]
        if it.k == "op" and it.a[0] == "range" and it.a[1] and all(isinstance(cval_(v), int) for _, v in it.a[1]):
            r = list(range(*[cval_(v) for _, v in it.a[1]]))
            if 0 < len(r) <= 8:
                return [const(i) for i in r]
        return None

    def s_While(self, s, st):
        f = counting_loop(s)
        if f is not None and f.target.id in st.env:
            x = st.env[f.target.id]
            if cval_(x) == 0 and x.k == "const":
                f.iter.args = f.iter.args[1:]
            out = self.s_For(f, st)
            if "fall" in out and not any(isinstance(n, ast.Break) for n in ast.walk(s)):
                st.env[f.target.id] = N("op", "max", (("input", x), ("other", self.expr(f.iter.args[-1], st))))
            return out
        return self.loop(s, None, st)

    def loop(self, s, it, st):
        lid = f"{'for' if it is not None else 'while'}@{len(self.frames)}.{s.lineno}"
        # pass 1: find what the body changes
        saved_ev, saved_ctx = self.events, list(self.ctx)
        self.events = []
        fr = self.frames[-1]
        saved_ret, saved_rs, saved_y = list(fr.returns), list(getattr(fr, "ret_states", [])), list(fr.yields)
        trial = st.copy()
        if it is not None:
            self.bind_iter(s.target, it, trial, s)
        else:
            self.expr(s.test, trial)
        before = trial.copy()
        self.ctx.append(("loop", lid, it))
        lf = {"base": len(trial.pc), "breaks": [], "continues": []}
        self.loopstack.append(lf)
        fl = self.block(s.body, trial)
        self._join_continues(lf, fl, trial)
        self.loopstack.pop()
        self.ctx = list(saved_ctx)
        self.events = saved_ev
        fr.returns, fr.ret_states, fr.yields = saved_ret, saved_rs, saved_y
        ch_env = [k for k in before.env if trial.env.get(k) is not before.env[k]]
        assigned = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        for k in assigned:
            if k in before.env and k not in ch_env:
                ch_env.append(k)
        ch_cont = [k for k in before.content if trial.content.get(k) is not before.content[k]]
        ch_cont += [k for k in trial.content if k not in before.content and k.k != "alloc"]
        ch_heap = [k for k in trial.heap if before.heap.get(k) is not trial.heap[k]]
        # pass 2
        entry = st.copy()
        lv = {}
        tgt = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)} if it is not None else set()
        for k in ch_env:
            if k in tgt:
                continue
            init = entry.env.get(k, UNDEF)
            n = N("loopvar", k, lid, self.snap(init, entry))
            t = self.typeof(init)
            if t:
                self.types.setdefault(n, t)
            lv[("env", k)] = n
            st.env[k] = n
        for k in ch_cont:
            init = entry.content.get(k, k)
            n = N("loopvar", f"@{k.a[0] if k.k == 'alloc' else show(k)}", lid, init)
            t = self.typeof(k) or self.typeof(init)
            if t:
                self.types.setdefault(n, t)
            lv[("content", k)] = n
            st.content[k] = n
        for k in ch_heap:
            old = entry.heap.get(k)
            init = self.snap(old, entry) if old is not None else N("attr", k[0], k[1])
            n = N("loopvar", f".{k[1]}", lid, init)
            t = self.typeof(init)
            if t:
                self.types.setdefault(n, t)
            lv[("heap", k)] = n
            st.heap[k] = n
        if it is not None:
            self.bind_iter(s.target, it, st, s)
        self.ctx.append(("loop", lid, it))
        base = st.pc
        wcond = ()
        if it is None:
            c = self.snap(self.expr(s.test, st), st)
            self.ev("while", c, st, s)
            wcond = tuple((x, p, "if") for x, p in norm_cond(c) if x.k != "const")
            st.pc = st.pc + wcond
        ln = len(st.pc)
        lf = {"base": ln, "breaks": [], "continues": []}
        self.loopstack.append(lf)
        flow = self.block(s.body, st)
        self._join_continues(lf, flow, st)
        self.loopstack.pop()
        self.ctx = list(saved_ctx)
        keep = tuple((c, p, t) for c, p, t in st.pc[ln:] if t == "raise")
        end = st.copy()
        st.pc = base + keep
        src = it if it is not None else N("whileiter", lid)
        info = {"src": src, "test": c if it is None else None, "lid": lid,
                "breaks": [(self._conj(pcs), bst) for pcs, bst in lf["breaks"]]}
        self.loopinfo[lid] = info
        for (kind, k), v in lv.items():
            at = []
            for _, bst in lf["breaks"]:
                if kind == "env":
                    at.append(self.snap(bst.env.get(k, UNDEF), bst))
                elif kind == "content":
                    at.append(bst.content.get(k, v))
                else:
                    x = bst.heap.get(k)
                    at.append(self.snap(x, bst) if x is not None else v)
            fv = self.snap(end.env.get(k, UNDEF), end) if kind == "env" else end.content.get(k, v) if kind == "content" else \
                self.snap(end.heap[k], end) if k in end.heap else v
            self.loopbody[v] = (fv, info, at)
        for (kind, k), v in lv.items():
            if kind == "env":
                fin = end.env.get(k, UNDEF)
                finv = self.snap(fin, end)
                st.env[k] = entry.env[k] if finv is v and k in entry.env else self.close_loop(v, finv, src, st, fin)
            elif kind == "content":
                finv = end.content.get(k, v)
                init = entry.content.get(k, k)
                st.content[k] = init if finv is v else self.snap(self.close_loop(v, finv, src, st), st)
            else:
                fin = end.heap.get(k)
                finv = self.snap(fin, end) if fin is not None else v
                if finv is v:
                    if k in entry.heap:
                        st.heap[k] = entry.heap[k]
                    else:
                        st.heap.pop(k, None)
                else:
                    st.heap[k] = self.close_loop(v, finv, src, st)
        # variables first defined in the loop body: undefined when the loop does not run
        for k in end.env:
            if k not in entry.env and ("env", k) not in lv:
                v = self.snap(end.env[k], end)
                if v.k != "closure":
                    n = N("loopout", lid, src, UNDEF, v)
                    t = self.typeof(end.env[k])
                    if t:
                        self.types.setdefault(n, t)
                    st.env[k] = self.new_alloc(n, st)
        if s.orelse:
            self.block(s.orelse, st)
        out = {"fall"}
        if it is None and isinstance(s.test, ast.Constant) and s.test.value and "break" not in flow:
            out = set()
        if "return" in flow:
            out.add("return")
        if "raise" in flow:
            out.add("raise")
        return out

    def close_loop(self, lvn, body, src, st, fin=None):
        init = lvn.a[2]
        acc = None
        if not self.loopinfo[lvn.a[1]]["breaks"]:
            acc = self.accumulator(lvn, body, src, init)
        if acc is not None:
            t = self.typeof(lvn)
            if t:
                self.types.setdefault(acc, t)
            return self.new_alloc(acc, st)
        n = N("loopout", lvn.a[1], src, init, body)
        t = self.typeof(body) or self.typeof(init)
        if t:
            self.types.setdefault(n, t)
        return self.new_alloc(n, st)

    def accumulator(self, lv, body, src, init):
        conds = ()
        b = body
        while b.k == "phi":
            if b.a[2] is lv:
                conds += tuple(norm_cond(b.a[0]))
                b = b.a[1]
            elif b.a[1] is lv:
                conds += tuple(norm_cond(b.a[0], False))
                b = b.a[2]
            else:
                x, y = self.appended(b.a[1], lv), self.appended(b.a[2], lv)
                if x is None or y is None or x[0] != y[0] or lv in b.a[0].subs():
                    return None
                b = N(x[0], lv, mk_phi(b.a[0], True, x[1], y[1]))
        if any(c is lv or lv in c.subs() for c, _ in conds):
            return None
        if b.k in ("append", "extend") and (b.a[1] is lv or lv in b.a[1].subs()):
            return None
        if b.k == "append" and b.a[0] is lv:
            if init.k == "list" and not init.a:
                return N("comp", "list", b.a[1], (src,), conds)
            if init.k == "op" and init.a[0] == "set" and not init.a[1]:
                return N("comp", "set", b.a[1], (src,), conds)
            return N("extend", init, N("comp", "list", b.a[1], (src,), conds))
        if b.k == "extend" and b.a[0] is lv and lv not in b.a[1].subs():
            if init.k == "list" and not init.a:
                return N("comp", "flat", b.a[1], (src,), conds)
            return N("extend", init, N("comp", "flat", b.a[1], (src,), conds))
        if b.k == "update" and b.a[0] is lv and init.k == "dict" and not init.a[0]:
            return N("comp", "dict", N("tuple", b.a[1], b.a[2]), (src,), conds)
        return None

    def appended(self, b, lv):
        """(kind, what) when every path of b appends one element to (extends) lv."""
        if b.k in ("append", "extend") and b.a[0] is lv and lv is not b.a[1] and lv not in b.a[1].subs():
            return b.k, b.a[1]
        if b.k == "phi" and lv not in b.a[0].subs():
            x, y = self.appended(b.a[1], lv), self.appended(b.a[2], lv)
            if x and y and x[0] == y[0]:
                return x[0], mk_phi(b.a[0], True, x[1], y[1])
        return None

    def bind_iter(self, target, it, st, s):
        self.assign_iter(target, it, st, s)

    def assign_iter(self, t, it, st, s):
        v = self.iter_elem(it, st)
        self.assign(t, v, st, s)

    def iter_elem(self, it, st):
        """Symbolic element of an iterable."""
        if it.k == "op" and it.a[0] == "enumerate" and it.a[1]:
            base = first_arg(it)
            start = arg(it, "start", "1")
            i = N("idx", self.iter_base(base))
            if start is not None and num(start) != 0:
                i = mk_bin("+", i, start)
            return N("tuple", i, self.iter_elem(base, st))
        if it.k == "op" and it.a[0] == "zip":
            return N("tuple", *[self.iter_elem(v, st) for _, v in it.a[1]])
        if it.k == "op" and it.a[0] == "range":
            a = [v for _, v in it.a[1]]
            if len(a) == 1 and a[0].k == "op" and a[0].a[0] == "len":
                return N("idx", self.iter_base(first_arg(a[0])))
            if len(a) == 2 and is_const(a[0], 0) and a[1].k == "op" and a[1].a[0] == "len":
                return N("idx", self.iter_base(first_arg(a[1])))
            if len(a) == 2 and is_const(a[0], 0):
                return N("idx", mk_op("range", [a[1]], {}))
            return N("idx", it)
        if it.k == "op" and it.a[0] in ("items",) and len(it.a[1]) == 1:
            d = first_arg(it)
            key = N("elem", d)
            if d.k == "comp" and d.a[0] == "dict":
                return d.a[1]
            return N("tuple", key, self.typed_sub(d, key))
        if it.k == "op" and it.a[0] in ("values",) and len(it.a[1]) == 1:
            d = first_arg(it)
            return self.typed_sub(d, N("elem", d))
        if it.k == "op" and it.a[0] in ("keys", "list", "tuple", "iter") and len(it.a[1]) == 1:
            return self.iter_elem(first_arg(it), st)
        if it.k == "comp" and it.a[0] in ("list", "gen", "set") and not it.a[3]:
            return it.a[1]
        n = N("elem", it)
        self.typeof(n)
        return n

    def typed_sub(self, d, k):
        n = N("sub", d, k)
        self.typeof(n)
        return n

    def iter_base(self, it):
        if it.k == "op" and it.a[0] in ("list", "tuple") and len(it.a[1]) == 1:
            return self.iter_base(first_arg(it))
        return it

    # ---- with / try
    def s_With(self, s, st):
        n0 = len(self.ctx)
        for i in s.items:
            v = self.snap(self.expr(i.context_expr, st), st)
            self.ev("with", v, st, s)
            self.ctx.append(("with", v))
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st, s)
        f = self.block(s.body, st)
        del self.ctx[n0:]
        return f

    def s_Try(self, s, st):
        tid = f"try{self.tries.setdefault((self.frames[-1].func.qual, s.lineno), len(self.tries))}"
        entry = st.copy()
        self.ctx.append(("try", tid, bool(s.handlers), bool(s.finalbody)))
        f = self.block(s.body, st)
        if s.orelse and "fall" in f:
            f = (f - {"fall"}) | self.block(s.orelse, st)
        self.ctx.pop()
        body_f = set(f)
        for h in s.handlers:
            hs = entry.copy()
            if h.name:
                hs.env[h.name] = N("exc", tid)
            typ = self.expr(h.type, entry.copy()) if h.type is not None else NONE
            self.ctx.append(("except", tid, typ, s.finalbody != []))
            ctok = N("exc", tid, typ)
            hs.pc = hs.pc + ((ctok, True, "if"),)
            hf = self.block(h.body, hs)
            self.ctx.pop()
            if "fall" in hf:
                if "fall" in body_f:
                    pc = st.pc
                    a, b = hs, st.copy()
                    self.merge(ctok, a, b, st)
                    st.pc = entry.pc
                else:
                    st.env, st.heap, st.content, st.pc = hs.env, hs.heap, hs.content, entry.pc
                f.add("fall")
            f |= hf - {"fall"}
        if s.finalbody:
            self.ctx.append(("finally", tid))
            fs = st if "fall" in f else st.copy()
            ff = self.block(s.finalbody, fs)
            self.ctx.pop()
            if "fall" not in ff:
                f = ff
        return f

    # ------------------------------------------------------------------ expressions
    def expr(self, e, st, quiet=False):
        if quiet:
            n = len(self.events)
            v = self.expr(e, st)
            del self.events[n:]
            return v
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            for x in ast.iter_child_nodes(e):
                if isinstance(x, ast.expr):
                    self.expr(x, st)
            return N("unknown", type(e).__name__, self.loc(e))
        return m(e, st)

    def val(self, e, st):
        return self.snap(self.expr(e, st), st)

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        if e.id in st.env:
            return st.env[e.id]
        f = self.frames[-1]
        if self._is_local(f, e.id):
            return UNDEF
        return self.global_ref(e.id, f.func.module)

    def _is_local(self, fr, name):
        if fr.locals_ is None:
            fr.locals_ = set()
            for n in _walk_scope(fr.func.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    fr.locals_.add(n.id)
        return name in fr.locals_ and not getattr(fr, "closure_env", None)

    def global_ref(self, name, mod):
        d = self.repo.resolve_name(name, mod)
        if d is None:
            return N("global", f"builtins.{name}")
        return self.dotted(d)

    def dotted(self, d):
        ok, v = self.repo.const(d)
        if ok:
            return const(v)
        return N("global", d)

    def e_Attribute(self, e, st):
        b = self.expr(e.value, st)
        return self.getattr_(b, e.attr, st, e)

    def getattr_(self, b, attr, st, e):
        if b.k == "global":
            return self.dotted(self.repo.canon(f"{b.a[0]}.{attr}"))
        p = self.path(b, st)
        if (p, attr) in st.heap:
            return st.heap[(p, attr)]
        bs = self.snap(b, st)
        if bs.k == "op" and bs.a[0] in ("max", "min", "median", "sort", "topk") and attr in ("values", "indices"):
            pass
        if attr == "shape":
            z = bs
            while z.k == "update":
                z = z.a[0]
            if z.k == "op" and z.a[0] in ("zeros", "ones", "empty", "full", "rand", "randn") and z.a[1]:
                d = arg(z, "size") or first_arg(z)
                if d.k in ("tuple", "list") and not any(x.k == "star" for x in d.a):
                    return N("tuple", *d.a)
        n = N("attr", bs, attr, loc=self.loc(e))
        if n not in self.types:
            t = self.typeof(b)
            if t and t[0] == "cls":
                at = self.repo.attr_type(t[1], attr)
                if at:
                    self.types[n] = at
                f = self.repo.find_method(t[1], attr)
                if f is not None and f.is_property and self.should_inline(f):
                    return self.inline_call(f, {"self": b}, st, e)
        return n

    def index(self, sl, st, quiet=False):
        if quiet:
            n = len(self.events)
            v = self.index(sl, st)
            del self.events[n:]
            return v
        if isinstance(sl, ast.Slice):
            return self.e_Slice(sl, st)
        if isinstance(sl, ast.Tuple):
            return N("tuple", *[self.index(x, st) for x in sl.elts])
        return self.val(sl, st)

    def e_Slice(self, e, st):
        g = lambda x: NONE if x is None else self.val(x, st)
        lo, hi, step = g(e.lower), g(e.upper), g(e.step)
        return N("slice", lo, hi, step)

    def e_Subscript(self, e, st):
        b = self.expr(e.value, st)
        i = self.index(e.slice, st)
        bv = self.snap(b, st)
        v = self.mk_sub(bv, i, st, self.loc(e))
        if v.k in ("sub", "update", "append") and (b.k == "alloc" or b in self.subof):
            self.subof[v] = (b, i)
        return v

    def tuple_item(self, sv, i, st):
        if sv.k == "phi" and (sv.a[1].k == "tuple" or sv.a[2].k == "tuple"):
            return mk_phi(sv.a[0], True, self.tuple_item(sv.a[1], i, st), self.tuple_item(sv.a[2], i, st))
        return self.mk_sub(sv, const(i), st)

    def mk_sub(self, b, i, st, loc=None):
        if b.k in ("tuple", "list") and isinstance(num(i), int) and -len(b.a) <= num(i) < len(b.a) \
                and not any(x.k == "star" for x in b.a):
            return b.a[num(i)]
        if b.k == "dict" and i.k == "const" and all(x is not None and x.k == "const" for x, _ in b.a[0]):
            for x, y in b.a[0]:
                if x is i:
                    return y
        if b.k == "update":
            r = _idx_rel(b.a[1], i)
            if r == "same":
                return b.a[2]
            if r == "disjoint":
                return self.mk_sub(b.a[0], i, st, loc)
        if i.k == "idx" and i.a[0] is b:
            return self.iter_elem(b, st)
        if b.k == "comp" and b.a[0] == "list" and i.k == "idx" and len(b.a[2]) == 1 and not b.a[3] and i.a[0] is self.iter_base(b.a[2][0]):
            return b.a[1]
        n = N("sub", b, i, loc=loc)
        return n

    def e_Tuple(self, e, st):
        return N("tuple", *[self.val(x, st) for x in e.elts])

    def e_List(self, e, st):
        return N("list", *[self.val(x, st) for x in e.elts])

    def e_Set(self, e, st):
        return N("set", *[self.val(x, st) for x in e.elts])

    def e_Dict(self, e, st):
        items = []
        for k, v in zip(e.keys, e.values):
            items.append((self.val(k, st) if k is not None else N("star"), self.val(v, st)))
        return N("dict", tuple(items), loc=self.loc(e))

    def e_Starred(self, e, st):
        return N("star", self.val(e.value, st))

    def e_BinOp(self, e, st):
        l, r = self.val(e.left, st), self.val(e.right, st)
        op = OPS[type(e.op)]
        if op == "+" and (self._is_list(l) or self._is_list(r)):
            return N("extend", l, r, loc=self.loc(e))
        if l.k == "const" and r.k == "const":
            a, b = l.a[0].v, r.a[0].v
            try:
                if op == "+" and isinstance(a, str) and isinstance(b, str):
                    return const(a + b)
                if isinstance(a, int) and isinstance(b, int) and op in ("+", "-", "*"):
                    return const({"+": a + b, "-": a - b, "*": a * b}[op])
                if type(a) is int and type(b) is int and op in ("<<", ">>", "&", "|", "^") and 0 <= b < (64 if op in ("<<", ">>") else 1 << 64):
                    return const({"<<": a << min(b, 64), ">>": a >> min(b, 64), "&": a & b, "|": a | b, "^": a ^ b}[op])
            except Exception:
                pass
        return mk_bin(op, l, r, self.loc(e))

    def e_UnaryOp(self, e, st):
        v = self.val(e.operand, st)
        return mk_un({ast.USub: "-", ast.UAdd: "+", ast.Not: "not", ast.Invert: "~"}[type(e.op)], v, self.loc(e))

    def e_BoolOp(self, e, st):
        vs = []
        pc = st.pc
        for x in e.values:
            v = self.val(x, st)
            vs.append(v)
            st.pc = st.pc + tuple((c, p, "if") for c, p in norm_cond(v, isinstance(e.op, ast.And)))
        st.pc = pc
        return N("bool", "and" if isinstance(e.op, ast.And) else "or", tuple(vs), loc=self.loc(e))

    def e_Compare(self, e, st):
        l = self.val(e.left, st)
        parts = []
        for o, c in zip(e.ops, e.comparators):
            r = self.val(c, st)
            parts.append(mk_cmp(CMP[type(o)], l, r, self.loc(e)))
            l = r
        return parts[0] if len(parts) == 1 else N("bool", "and", tuple(parts), loc=self.loc(e))

    def e_IfExp(self, e, st):
        c = self.val(e.test, st)
        res = {}

        def fa(x):
            res["a"] = self.val(e.body, x)
            return {"fall"}

        def fb(x):
            res["b"] = self.val(e.orelse, x)
            return {"fall"}
        self.branch(c, e, fa, fb, st)
        if "a" in res and "b" in res:
            atoms = norm_cond(c)
            if len(atoms) == 1:
                return mk_phi(atoms[0][0], atoms[0][1], res["a"], res["b"])
            return mk_phi(c, True, res["a"], res["b"])
        return res.get("a", res.get("b"))

    def e_JoinedStr(self, e, st):
        vs = [self.val(x.value, st) if isinstance(x, ast.FormattedValue) else const(x.value) for x in e.values]
        if all(v.k == "const" for v in vs):
            return const("".join(str(v.a[0].v) for v in vs))
        out = []
        for v in vs:
            if out and out[-1].k == "const" and v.k == "const":
                out[-1] = const(str(out[-1].a[0].v) + str(v.a[0].v))
            else:
                out.append(v)
        return N("fstr", *out)

    def e_FormattedValue(self, e, st):
        return self.val(e.value, st)

    def e_Lambda(self, e, st):
        fd = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.copy_location(ast.Return(value=e.body), e)], decorator_list=[], returns=None)
        ast.copy_location(fd, e)
        f = Func(self.frames[-1].func.qual + ".<lambda>", fd, self.frames[-1].func.module)
        names = {x.id for x in ast.walk(e) if isinstance(x, ast.Name)} - {a.arg for a in ast.walk(e.args) if isinstance(a, ast.arg)}
        if any(x in st.env for x in names):
            n = N("closure", f.qual, e.lineno, e.col_offset)
        else:       # captures nothing: known by its text
            n = N("closure", "<lambda>", ast.unparse(e), 0)
        self.closures[n] = (f, st)
        return n

    def e_NamedExpr(self, e, st):
        v = self.rhs(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def e_Yield(self, e, st):
        v = self.val(e.value, st) if e.value else NONE
        self.ev("yield", v, st, e)
        self.frames[-1].yields.append(v)
        return NONE

    def e_YieldFrom(self, e, st):
        v = self.val(e.value, st)
        self.ev("yieldfrom", v, st, e)
        self.frames[-1].yields.append(N("from", v))
        return NONE

    def _comp(self, e, kind, st):
        env = dict(st.env)
        pc = st.pc
        iters, conds = [], ()
        n0 = len(self.ctx)
        for g in e.generators:
            it = self.val(g.iter, st)
            self.ev("for", it, st, e)
            if kind in ("list", "gen", "dict") and len(e.generators) == 1 and not g.ifs:
                un = self.unrollable(it, e)
                if un is not None:
                    out = []
                    for v in un:
                        self.assign(g.target, v, st, e)
                        out.append((self.val(e.key, st), self.val(e.value, st)) if kind == "dict" else self.val(e.elt, st))
                    st.env = {**{k: v for k, v in st.env.items() if k in env}, **env}
                    if kind == "dict":
                        return N("dict", tuple(out), loc=self.loc(e))
                    return N("list", *out, loc=self.loc(e))
            self.ctx.append(("loop", f"comp@{e.lineno}.{e.col_offset}", it))
            self.assign(g.target, self.iter_elem(it, st), st, e)
            iters.append(it)
            for c in g.ifs:
                a = norm_cond(self.val(c, st))
                conds += tuple(a)
                st.pc = st.pc + tuple((x, p, "if") for x, p in a)
        if kind == "dict":
            elt = N("tuple", self.val(e.key, st), self.val(e.value, st))
        else:
            elt = self.val(e.elt, st)
        del self.ctx[n0:]
        st.pc = pc
        keep = {k: v for k, v in st.env.items() if k in env}
        st.env = {**keep, **env}
        return N("comp", kind, elt, tuple(iters), conds, loc=self.loc(e))

    def e_ListComp(self, e, st):
        return self._comp(e, "list", st)

    def e_SetComp(self, e, st):
        return self._comp(e, "set", st)

    def e_GeneratorExp(self, e, st):
        return self._comp(e, "gen", st)

    def e_DictComp(self, e, st):
        return self._comp(e, "dict", st)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        f = e.func
        recv = None
        fn = None
        mname = None
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                return self.super_call(e, f.attr, st)
            b = self.expr(f.value, st)
            sb = self.snap(b, st) if b.k == "alloc" else b
            if sb.k == "op" and sb.a[0] == "super" and not sb.a[1]:
                return self.super_call(e, f.attr, st)
            if b.k == "global":
                fn = self.dotted(self.repo.canon(f"{b.a[0]}.{f.attr}"))
                if fn.k == "global":
                    # method on a module-level object (e.g. log.info): keep dotted
                    pass
            else:
                recv, mname = b, f.attr
        else:
            fn = self.val(f, st)
        pos, kws, star = [], {}, False
        raw_pos, raw_kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                sv = self.val(a.value, st)
                if sv.k in ("tuple", "list"):
                    for x in sv.a:
                        raw_pos.append(x)
                    continue
                star = True
                raw_pos.append(N("star", sv))
            else:
                raw_pos.append(self.arg_value(a, st))
        for k in e.keywords:
            if k.arg is None:
                kv = self.val(k.value, st)
                if kv.k == "dict" and all(x.k == "const" for x, _ in kv.a[0]):
                    for x, y in kv.a[0]:
                        raw_kw[x.a[0].v] = y
                    continue
                raw_kw["**"] = kv
            else:
                raw_kw[k.arg] = self.arg_value(k.value, st)
        if mname is not None:
            return self.method_call(e, recv, mname, raw_pos, raw_kw, st)
        return self.plain_call(e, fn, raw_pos, raw_kw, st)

    def arg_value(self, e, st):
        v = self.expr(e, st)
        return v

    def bind(self, func, recv, pos, kws, st, is_ctor=False):
        params = list(func.posparams)
        b = {}
        if func.cls is not None and not func.is_static:
            if params:
                b[params[0]] = recv if recv is not None else NONE
                params = params[1:]
        for p, v in zip(params, pos):
            b[p] = v
        if len(pos) > len(params) and func.vararg:
            b[func.vararg] = N("tuple", *[self.snap(x, st) for x in pos[len(params):]])
        for k, v in kws.items():
            if k in func.params:
                b[k] = v
            else:
                b.setdefault("**" + k, v)
        return b

    def pairs(self, func, b, st, drop_self=False):
        out = []
        for p in func.params:
            if drop_self and p == "self":
                continue
            if p in b:
                out.append((p, self.snap(b[p], st)))
            elif p in func.defaults:
                ok, v = self.repo._lit(func.defaults[p], func.module, 0)
                out.append((p, const(v) if ok else N("default", func.qual, p)))
        for k, v in sorted(b.items(), key=lambda t: t[0]):
            if k.startswith("**") or k == func.vararg:
                out.append((k.lstrip("*"), self.snap(v, st)))
        return tuple(out)

    def should_inline(self, f):
        q = f.qual
        if any(q == x or q.endswith("." + x) for x in self.opaque):
            return False
        if any(fr.func.qual == q for fr in self.frames) or len(self.frames) > MAXDEPTH:
            return False
        if f.is_abstract:
            return False
        if any(q == x or q.endswith("." + x) for x in self.inline):
            return True
        if f.name.startswith("__") and f.name.endswith("__"):
            return False
        if self.inline_private and f.name.startswith("_"):
            return True
        k = known_functions()
        return bool(k) and q not in k

    def inline_call(self, f, b, st, e, closure_env=None):
        fr = Frame(f, e)
        fr.entry_pc = st.pc
        sub = State({}, st.heap, st.content, st.pc)
        if closure_env is not None:
            sub.env.update(closure_env)
            fr.closure_env = True
        for p in f.params + [x for x in (f.vararg, f.kwarg) if x]:
            if p in b:
                sub.env[p] = b[p]
                if p in f.annots and self.typeof(b[p]) is None:
                    t = self.repo.ann_type(f.annots[p], f.module)
                    if t:
                        self.types[b[p]] = t
            elif p in f.defaults:
                self.frames.append(Frame(f))
                sub.env[p] = self.expr(f.defaults[p], State({}, {}, {}, ()))
                self.frames.pop()
            else:
                sub.env[p] = N("param", f.qual, p)
        self.frames.append(fr)
        n0 = len(self.ctx)
        self._ctxdeco(f)
        self.ctx.append(("inline", f.qual))
        flow = self.block(f.node.body, sub)
        del self.ctx[n0:]
        self.frames.pop()
        base = len(st.pc)
        rets = list(fr.returns)
        states = list(getattr(fr, "ret_states", []))
        if "fall" in flow:
            rets.append((tuple((c, p) for c, p, t in sub.pc[base:]), NONE))
            states.append((tuple((c, p) for c, p, t in sub.pc[base:]), sub.copy()))
        if not states:
            # never returns normally
            st.heap, st.content = sub.heap, sub.content
            return N("noreturn", f.qual)
        # merge heaps of return states
        cur = states[-1][1]
        for pcx, s2 in reversed(states[:-1]):
            m = State({}, {}, {}, ())
            c = [x for x in pcx]
            if not c:
                cur = s2
                continue
            if len(c) == 1:
                cn = c[0][0] if c[0][1] else mk_un("not", c[0][0])
            else:
                cn = N("bool", "and", tuple(x[0] if x[1] else mk_un("not", x[0]) for x in c))
            s2c, curc = s2.copy(), cur.copy()
            s2c.env, curc.env = {}, {}
            self.merge(cn, s2c, curc, m)
            cur = m
        st.heap, st.content = cur.heap, cur.content
        # conditions that must hold because the helper raised otherwise: common to every normal exit
        keep = None
        for pcx, s2 in states:
            ks = {(c, p) for c, p, t in s2.pc[base:] if t == "raise"}
            keep = ks if keep is None else keep & ks
        if keep:
            order = []
            for _, s2 in states[:1]:
                for c, p, t in s2.pc[base:]:
                    if (c, p) in keep and (c, p) not in order:
                        order.append((c, p))
            st.pc = st.pc + tuple((c, p, "raise") for c, p in order)
        gen = fr.yields
        if gen:
            return N("gen", *gen)
        # strip raise-guards from return conditions
        rr = []
        for pcx, v in rets:
            rr.append((tuple((c, p) for c, p in pcx if (c, p) not in (keep or set())), v))
        v = merge_returns(rr)
        t = self.repo.ret_type(f)
        if t and self.typeof(v) is None and t != ("self",):
            self.types.setdefault(v, t)
        return v

    def repo_call(self, e, func, recv, pos, kws, st, virtual=False):
        b = self.bind(func, recv, pos, kws, st)
        if not virtual and self.should_inline(func) and "**" not in kws:
            for k, v in list(b.items()):
                if v.k not in ("alloc", "const", "param", "attr", "elem", "global", "closure", "sub"):
                    b[k] = self.new_alloc(v, st)
            r = self.inline_call(func, b, st, e)
            self.ev("inlined", r, st, e, func.qual)
            return r
        n = N("rcall", func.qual, self.pairs(func, b, st), loc=self.loc(e))
        if func.name == "get_device" and n.a[1] and n.a[1][0][1].k == "rcall" and n.a[1][0][1].a[0] == func.qual:
            return n.a[1][0][1]
        t = self.repo.ret_type(func)
        if t == ("self",):
            t = None
        if t:
            self.types.setdefault(n, t)
        self.ev("call", n, st, e, {k: v for k, v in b.items()})
        return n

    def super_call(self, e, mname, st):
        cls = None
        for fr in reversed(self.frames):
            if fr.func.cls is not None:
                cls = fr.func.cls
                break
        f = None
        if cls is not None:
            for c in self.repo.mro(cls.qual)[1:]:
                if mname in self.repo.classes[c].methods:
                    f = self.repo.classes[c].methods[mname]
                    break
        recv = st.env.get("self", NONE)
        pos = [self.expr(a, st) for a in e.args if not isinstance(a, ast.Starred)]
        kws = {k.arg: self.expr(k.value, st) for k in e.keywords if k.arg}
        if f is None:
            n = N("op", "super." + mname, tuple((str(i), self.snap(x, st)) for i, x in enumerate(pos)) + tuple(sorted((k, self.snap(v, st)) for k, v in kws.items())), loc=self.loc(e))
            self.ev("call", n, st, e)
            return n
        b = self.bind(f, recv, pos, kws, st)
        if any(fr.func.qual == f.qual for fr in self.frames) or f.is_abstract:
            n = N("rcall", f.qual, self.pairs(f, b, st), loc=self.loc(e))
            self.ev("call", n, st, e, b)
            return n
        return self.inline_call(f, b, st, e)

    def method_call(self, e, recv, mname, pos, kws, st):
        rv = self.snap(recv, st)
        t = self.typeof(recv) or self.typeof(rv)
        cand = None
        virtual = False
        if t and t[0] == "cls":
            p = self.path(recv, st)
            if (p, mname) in st.heap:
                return self.plain_call(e, self.snap(st.heap[(p, mname)], st), pos, kws, st)
            cand = self.repo.find_method(t[1], mname)
            subs = [s for s in self.repo.all_subclasses(t[1]) if mname in self.repo.classes[s].methods]
            # self inside a class: the concrete class is chosen by the caller; elsewhere an overridden method is virtual
            if subs and (cand is None or cand.is_abstract or not self._exact(recv, st)):
                virtual = True
                if cand is None:
                    cand = self.repo.classes[subs[0]].methods[mname]
            if cand is None:
                at = self.repo.attr_type(t[1], mname)
                if at and at[0] == "cls":
                    return self.plain_call(e, N("attr", rv, mname), pos, kws, st)
        elif t is None and mname not in TORCHISH:
            c = self.repo.method_index.get(mname, [])
            if len(c) == 1 or (c and mname in UNIQUE_OK):
                cand = self.repo.funcs[c[0]]
                virtual = len(c) > 1
        if cand is not None:
            return self.repo_call(e, cand, recv, pos, kws, st, virtual)
        # attribute holding a callable object of repo class
        at = self.typeof(N("attr", rv, mname)) if (t and t[0] == "cls") else None
        if mname in INPLACE_LIST and not (mname in DUAL and self._tensorish(rv)):
            return self.list_mut(e, recv, mname, pos, kws, st)
        if mname == "shuffle" and len(pos) == 1 and isinstance(e, ast.Call) and e.args:
            # random.Random(...).shuffle(x): permutes its argument
            new = N("mut", "shuffle", self.snap(pos[0], st), (rv,), loc=self.loc(e))
            self.ev("call", N("op", "shuffle", (("0", rv), ("1", new.a[1])), loc=self.loc(e)), st, e, {"recv": recv, "args": pos})
            self.write_loc(pos[0], new, st, e.args[0])
            return NONE
        vals = [self.snap(x, st) for x in pos]
        kv = {k: self.snap(v, st) for k, v in kws.items()}
        base = mname
        n = mk_op(base, [rv] + vals, kv, self.loc(e))
        if base == "clone" or base == "contiguous":
            pass
        self.ev("call", n if n.k == "op" else N("op", base, tuple(enumerate_str([rv] + vals)), loc=self.loc(e)), st, e, {"recv": recv, "args": pos})
        if mname.endswith("_") and not mname.startswith("_"):
            self.write_loc(recv, n, st, e.func.value)
        return n

    def _tensorish(self, v):
        t = self.typeof(v)
        if t and t[0] in ("list", "dict"):
            return False
        todo, seen = [v], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.k in ("list", "dict", "set", "comp", "append", "extend", "mut"):
                return False
            if x.k == "op" and x.a[0] in ("list", "dict", "set", "collections.defaultdict", "sorted"):
                return False
            if x.k == "phi":
                todo += [x.a[1], x.a[2]]
            elif x.k == "loopout":
                todo += [x.a[2], x.a[3]]
            elif x.k == "loopvar":
                todo.append(x.a[2])
            elif x.k == "update":
                todo.append(x.a[0])
        return True

    def _exact(self, recv, st):
        v = self.snap(recv, st)
        if v.k == "rcall" and v.a[0] in self.repo.classes:
            return True
        if v.k == "param" and v.a[1] == "self" and self.class_of_self:
            return True
        return False

    def list_mut(self, e, recv, mname, pos, kws, st):
        old = self.snap(recv, st)
        vals = [self.snap(x, st) for x in pos]
        n = N("op", mname, tuple(enumerate_str([old] + vals)) + tuple(sorted((k, self.snap(v, st)) for k, v in kws.items())), loc=self.loc(e))
        self.ev("call", n, st, e, {"recv": recv, "args": pos})
        if mname == "append" and len(vals) == 1:
            if old.k == "list" and len(old.a) < 24 and not any(x.k == "star" for x in old.a):
                new = N("list", *old.a, vals[0], loc=self.loc(e))
            else:
                new = N("append", old, vals[0], loc=self.loc(e))
        elif mname == "extend" and len(vals) == 1:
            new = N("extend", old, vals[0], loc=self.loc(e))
        elif mname == "add" and len(vals) == 1:
            new = N("append", old, vals[0], loc=self.loc(e))
        else:
            new = N("mut", mname, old, tuple(vals), loc=self.loc(e))
        self.write_loc(recv, new, st, e.func.value if isinstance(e.func, ast.Attribute) else None)
        return n if mname in ("pop", "setdefault", "popitem") else NONE

    def plain_call(self, e, fn, pos, kws, st):
        if fn.k == "closure" and fn in self.closures and len(self.frames) <= MAXDEPTH:
            f, cst = self.closures[fn]
            b = {}
            for p, v in zip(f.params, pos):
                b[p] = v
            for k, v in kws.items():
                if k in f.params:
                    b[k] = v
            env = dict(cst.env)
            if any(fr.func.qual == f.qual for fr in self.frames):
                return N("xcall", fn, tuple(enumerate_str([self.snap(x, st) for x in pos])))
            return self.inline_call(f, b, st, e, closure_env=env)
        if fn.k == "global":
            d = fn.a[0]
            if d in self.repo.funcs:
                f = self.repo.funcs[d]
                recv = None
                if f.cls is not None and not f.is_static:
                    if f.is_classmethod:
                        recv = N("global", f.cls.qual)
                    else:
                        recv, pos = (pos[0], pos[1:]) if pos else (None, pos)
                return self.repo_call(e, f, recv, pos, kws, st)
            if d in self.repo.classes:
                init = self.repo.find_method(d, "__init__")
                if init is not None:
                    b = self.bind(init, NONE, pos, kws, st)
                    ps = tuple((k, v) for k, v in self.pairs(init, b, st) if k != "self")
                else:
                    ps = tuple(enumerate_str([self.snap(x, st) for x in pos])) + tuple(sorted((k, self.snap(v, st)) for k, v in kws.items()))
                n = N("rcall", d, ps, loc=self.loc(e))
                self.types.setdefault(n, ("cls", d))
                self.ev("call", n, st, e, {"args": pos, "kws": kws})
                return n
            vals = [self.snap(x, st) for x in pos]
            kv = {k: self.snap(v, st) for k, v in kws.items()}
            # classmethod / method through class object of repo
            par, _, meth = d.rpartition(".")
            if par in self.repo.classes:
                f = self.repo.find_method(par, meth)
                if f is not None:
                    recv = N("global", par) if f.is_classmethod else None
                    if not f.is_static and not f.is_classmethod and pos:
                        recv, pos = pos[0], pos[1:]
                    return self.repo_call(e, f, recv, pos, kws, st)
            name = d
            if d.startswith("builtins."):
                name = d[len("builtins."):]
            if name == "getattr" and len(vals) >= 2 and isinstance(cval_(vals[1]), str):
                return self.getattr_(pos[0], cval_(vals[1]), st, e)
            if name == "setattr" and len(vals) == 3 and isinstance(cval_(vals[1]), str):
                b = self.path(pos[0], st)
                old = st.heap.get((b, cval_(vals[1])))
                st.heap[(b, cval_(vals[1]))] = pos[2]
                self.ev("store_attr", vals[2], st, e, (b, cval_(vals[1]), self.snap(b, st), old))
                return NONE
            elif d.startswith("torch.") and d.count(".") == 1:
                name = d[len("torch."):]
            if not vals and not kv and name in ("list", "dict"):
                return N(name, *(() if name == "list" else ((),)), loc=self.loc(e))
            n = mk_op(name, vals, kv, self.loc(e))
            rec = n if n.k == "op" else N("op", name, tuple(enumerate_str(vals)) + tuple(sorted(kv.items())), loc=self.loc(e))
            self.ev("call", rec, st, e, {"args": pos, "kws": kws})
            if name.startswith("torch.distributed.") and not name.startswith("torch.distributed.nn.") and (pos or "tensor" in kws) and name.rpartition(".")[2] in ("all_reduce", "broadcast", "reduce"):
                t = pos[0] if pos else kws["tensor"]
                texpr = e.args[0] if e.args else next(k.value for k in e.keywords if k.arg == "tensor")
                self.write_loc(t, n, st, texpr)
            if name.endswith("_") and pos and "init" in name:
                self.write_loc(pos[0], n, st, e.args[0])
            if name in ("random.shuffle", "numpy.random.shuffle") and len(pos) == 1 and e.args:
                self.write_loc(pos[0], N("mut", "shuffle", vals[0], (N("global", name),), loc=self.loc(e)), st, e.args[0])
            return n
        t = self.typeof(fn)
        if t and t[0] == "cls":
            for meth in ("__call__", "forward"):
                f = self.repo.find_method(t[1], meth)
                subs = [s for s in self.repo.all_subclasses(t[1]) if meth in self.repo.classes[s].methods]
                if f is None and subs:
                    f = self.repo.classes[subs[0]].methods[meth]
                if f is not None:
                    return self.repo_call(e, f, fn, pos, kws, st, virtual=bool(subs) or f.is_abstract)
        # element of a repo registry: treat as opaque call of a value
        vals = [self.snap(x, st) for x in pos]
        kv = {k: self.snap(v, st) for k, v in kws.items()}
        n = N("xcall", fn, tuple(enumerate_str(vals)) + tuple(sorted(kv.items())), loc=self.loc(e))
        self.ev("call", n, st, e, {"args": pos, "kws": kws})
        return n


def cval_(n):
    return n.a[0].v if n.k == "const" else None


def enumerate_str(xs):
    return [(str(i), x) for i, x in enumerate(xs)]


def _walk_scope(fn):
    """Nodes of a function without nested function bodies or comprehensions' own scopes."""
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            todo.append(c)


def _idx_rel(a, b):
    if a is b and a.k != "unknown":
        return "same"
    if a.k == "const" and b.k == "const":
        return "disjoint"
    if a.k == "tuple" and b.k == "tuple" and len(a.a) == len(b.a):
        rs = [_idx_rel(x, y) for x, y in zip(a.a, b.a)]
        if "disjoint" in rs:
            return "disjoint"
        if all(r == "same" for r in rs):
            return "same"
    if a.k == "tuple" and b.k == "tuple":
        # x[..., c1] vs x[:, c2, ...]: compare aligned trailing constants after an Ellipsis
        la, lb = list(a.a), list(b.a)
        if la and lb and is_const(la[0], Ellipsis) and is_const(lb[0], Ellipsis):
            for x, y in zip(reversed(la[1:]), reversed(lb[1:])):
                if _idx_rel(x, y) == "disjoint":
                    return "disjoint"
    return "unknown"


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.MatMult: "@",
       ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not",
       ast.In: "in", ast.NotIn: "not in"}
TORCHISH = {"sum", "mean", "step", "backward", "zero_grad", "to", "shape", "size", "view", "reshape", "item", "detach", "clone", "get",
            "items", "keys", "values", "info", "warning", "error", "debug", "forward", "sample", "append", "extend", "close", "format", "join",
            "split", "copy", "read", "write", "update", "load", "norm", "min", "max", "any", "all"}
UNIQUE_OK = {"align_surfaces_with_incident_ray_directions", "align_surfaces_with_motor_positions", "incident_ray_directions_to_orientations",
             "motor_positions_to_orientations", "motor_positions_to_angles", "angles_to_motor_positions", "get_distortions"}


def analyse(repo, qual, inline=(), opaque=(), class_of_self=None, private=True):
    it = Interp(repo, inline, opaque, private, class_of_self)
    g = it.run(repo.func(qual))
    g.interp = it
    g.types = it.types
    return g

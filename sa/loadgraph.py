"""Scenario files: what the writer puts where, and where the loader takes every value from.

Writer side: `writer_schema` interprets the dictionaries built by the configuration classes (helpers, conditional updates and
comprehensions included) and the prefixes under which the generator stores them; every leaf is the constructor argument of a
configuration class.  Loader side: `LoadGraph` is the value-flow graph of the scenario loader with all parsers inlined, so every
loaded value is an expression over file paths."""
from __future__ import annotations

from .q import *
from .vf import analyse
from .repo import AnalysisError

GEN = "artist.scenario.h5_scenario_generator.H5ScenarioGenerator"
LOAD = "artist.scenario.scenario.Scenario.load_scenario_from_hdf5"


# ------------------------------------------------------------------ writer
class Writer:
    def __init__(self, repo):
        self.repo, self.cache, self.ctor = repo, {}, {}
        self.schema = {}          # path tuple -> (leaf "Class.param", [conditions attr-chain], where)
        self.prefixes = {}
        self.functions = set()
        if GEN + ".generate_scenario" not in repo.funcs:
            raise AnalysisError("anchor vanished: scenario generator")
        g = analyse(repo, GEN + ".generate_scenario")
        self.g = g
        for e in g.events:
            if e.kind != "store_sub":
                continue
            key = e.x[1]
            src = [x for x in (set(e.node.subs()) | set(key.subs())) if x.k == "rcall" and x.a[0].startswith("artist.util.config.")]
            if key.k == "fstr" and key.a and key.a[0].k == "const" and src:
                pre = str(cval(key.a[0])).rstrip("/")
                top = [x for x in src if not any(x is not y and x in y.subs() for y in src)]
                # the flattened dictionary is the outermost builder call
                for x in top:
                    self.prefixes.setdefault(pre, []).append((x, e))
                    for path, leaf in self.build(x).items():
                        self.schema[(pre,) + path] = leaf
            elif key.k == "const" and isinstance(cval(key), str):
                self.schema[(cval(key),)] = (show(e.node)[:60], (), e.where())

    def ctor_map(self, cls):
        """attribute -> constructor parameter."""
        if cls not in self.ctor:
            m = {}
            f = self.repo.find_method(cls, "__init__")
            if f is not None:
                gg = analyse(self.repo, f.qual, class_of_self=cls, inline=[c + ".__init__" for c in self.repo.mro(cls)])
                for e in gg.stores():
                    v = peel(e.node)
                    if v.k == "param":
                        m[e.x[1]] = v.a[1]
            self.ctor[cls] = m
        return self.ctor[cls]

    def build(self, call, depth=0):
        """paths written by a dictionary builder call; leaf = (Class.param, conditions)."""
        if depth > 8:
            raise AnalysisError("dictionary builders nest too deeply")
        q = call.a[0]
        f = self.repo.funcs[q]
        if q not in self.cache:
            g = analyse(self.repo, q, class_of_self=f.cls.qual if f.cls else None)
            self.functions.add(q)
            self.cache[q] = self.expand(g.ret(), f, (), depth)
        return self.cache[q]

    def expand(self, n, f, conds, depth):
        """dict-valued node -> {path: (leaf, conds, where)}"""
        out = {}
        if n.k == "dict":
            for k, v in n.a[0]:
                self.put(out, k, v, f, conds, depth)
        elif n.k == "phi":
            a = self.expand(n.a[1], f, conds + ((n.a[0], True),), depth)
            b = self.expand(n.a[2], f, conds + ((n.a[0], False),), depth)
            for p in {**a, **b}:
                if p in a and p in b:
                    if a[p][0] != b[p][0]:
                        out[p] = (f"{a[p][0]} | {b[p][0]}", conds, a[p][2])
                    else:
                        common = tuple(c for c in a[p][1] if c in b[p][1])
                        out[p] = (a[p][0], common, a[p][2])
                else:
                    out[p] = a.get(p) or b[p]
        elif n.k == "mut" and n.a[0] == "update":
            out.update(self.expand(n.a[1], f, conds, depth))
            for x in (n.a[2] if isinstance(n.a[2], tuple) else (n.a[2],)):
                out.update(self.expand(x, f, conds, depth))
        elif n.k == "update":
            out.update(self.expand(n.a[0], f, conds, depth))
            self.put(out, n.a[1], n.a[2], f, conds, depth)
        elif n.k == "bin" and n.a[0] == "|":
            out.update(self.expand(n.a[1], f, conds, depth))
            out.update(self.expand(n.a[2], f, conds, depth))
        elif n.k == "comp" and n.a[0] == "dict":
            k, v = n.a[1].a[0], n.a[1].a[1]
            self.put(out, k, v, f, conds, depth)
        elif n.k == "loopout":
            out.update(self.expand(n.a[3], f, conds, depth))
        elif n.k == "loopvar":
            pass
        elif n.k == "rcall" and n.a[0].startswith("artist."):
            for p, (leaf, c, w) in self.build(n, depth + 1).items():
                out[p] = (leaf, conds + c, w)
        else:
            raise AnalysisError(f"{f.qual}: cannot interpret dictionary {show(n)[:120]}")
        return out

    def put(self, out, k, v, f, conds, depth):
        if k.k == "const" and isinstance(cval(k), str):
            key = cval(k)
        else:
            key = "*" + self.leaf(k, f)
        if v.k in ("dict", "phi", "mut", "update", "loopout") and self.is_dict(v) or v.k == "comp" and v.a[0] == "dict" or \
                v.k == "rcall" and v.a[0].startswith("artist.util.config."):
            for p, l in self.expand(v, f, conds, depth).items():
                out[(("*" if key.startswith("*") else key),) + p] = l
        else:
            out[("*" if key.startswith("*") else key,)] = (self.leaf(v, f), conds, f"{f.file}:{f.line}")

    def is_dict(self, v):
        return any(x.k in ("dict", "comp") or x.k == "rcall" and x.a[0].startswith("artist.util.config.create") for x in phi_leaves(v))

    def leaf(self, v, f):
        v = peel(v)
        while v.k == "op" and v.a[0] in ("str", "list", "tuple", "float", "int", "bool") and v.a[1]:
            v = first_arg(v)
        if v.k == "attr" and v.a[0].k == "param" and v.a[0].a[1] == "self" and f.cls:
            return f"{f.cls.qual.rpartition('.')[2]}.{self.ctor_map(f.cls.qual).get(v.a[1], '?' + v.a[1])}"
        if v.k == "attr":
            return "elem." + v.a[1]
        return show(v)[:80]


# ------------------------------------------------------------------ loader
class LoadGraph:
    _c = {}

    def __init__(self, repo):
        self.repo = repo
        if LOAD not in repo.funcs:
            raise AnalysisError("anchor vanished: scenario loader")
        inl = [q for q in repo.funcs if q.startswith("artist.io.h5_scenario_parser.") or q.endswith(".from_hdf5") and not q.endswith("Sun.from_hdf5")]
        self.g = analyse(repo, LOAD, inline=inl)
        self.functions = {LOAD} | set(inl)
        self.root = N("param", LOAD, "scenario_file")

    def path(self, n, root=None):
        """(path tuple, [elem nodes]) when n denotes the file object/value at that path, else None."""
        root = root or self.root
        if n is root:
            return (), ()
        if n.k == "sub":
            if n.a[1].k == "tuple" and not n.a[1].a:
                return self.path(n.a[0], root)
            b = self.path(n.a[0], root)
            if b is None:
                return None
            k = self.key(n.a[1])
            return None if k is None else (b[0] + k[0], b[1] + k[1])
        if n.k == "op" and n.a[0] == "get" and len(n.a[1]) >= 2:
            b = self.path(n.a[1][0][1], root)
            k = self.key(n.a[1][1][1])
            return None if b is None or k is None else (b[0] + k[0], b[1] + k[1])
        return None

    def key(self, k):
        if k.k == "const" and isinstance(cval(k), str):
            return tuple(cval(k).strip("/").split("/")), ()
        if k.k == "elem":
            return ("*",), (k,)
        if k.k == "sub" and k.a[0].k in ("comp", "op", "list"):
            return ("*",), (k,)
        if k.k == "fstr":
            s, es = "", []
            for p in k.a:
                if p.k == "const":
                    s += str(cval(p))
                elif p.k == "elem":
                    s += "*"
                    es.append(p)
                else:
                    return None
            return tuple(s.strip("/").split("/")), tuple(es)
        if k.k == "bin" and k.a[0] == "+":
            return None
        return None

    def value(self, n):
        """Strip conversions around a value read from the file; returns (path, elems, element index or None) or None."""
        idx = None
        while True:
            n = peel(n)
            if n.k == "op" and n.a[0] in ("tensor", "float", "int", "bool", "decode", "str", "asarray", "array", "numpy.array", "numpy.asarray") and n.a[1]:
                n = first_arg(n)
                continue
            if n.k == "sub" and n.a[1].k == "const" and isinstance(cval(n.a[1]), int) and not isinstance(cval(n.a[1]), bool):
                idx = cval(n.a[1])
                n = n.a[0]
                continue
            break
        p = self.path(n)
        return None if p is None else (p[0], p[1], idx)

    def truth(self, c):
        """path tested for presence by condition c: `x` / `x is not None` / `'k' in group.keys()`; returns (path, polarity)."""
        pol = True
        while c.k == "un" and c.a[0] == "not":
            c, pol = c.a[1], not pol
        if c.k == "cmp" and c.a[0] in ("is", "==") and is_const(c.a[2], None):
            p = self.path(c.a[1])
            return None if p is None else (p[0], not pol)
        if c.k == "cmp" and c.a[0] in ("is not", "!=") and is_const(c.a[2], None):
            p = self.path(c.a[1])
            return None if p is None else (p[0], pol)
        if c.k == "cmp" and c.a[0] == "in":
            b = c.a[2]
            if b.k == "op" and b.a[0] == "keys":
                b = first_arg(b)
            p, k = self.path(b), self.key(c.a[1])
            return None if p is None or k is None else (p[0] + k[0], pol)
        p = self.path(c)
        return None if p is None else (p[0], pol)

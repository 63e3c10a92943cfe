"""Loop canonicalisation and whole-function comparison with a reference body.

Loop-carried values are named by coinductive hashing: the class of a loop variable is determined by its initial value, its value at the
end of the body and at every break (with loop variables replaced by their classes of the previous round) and by the loop's exit conditions.
Names, statement order and temporaries do not matter."""
from __future__ import annotations

import sys

from . import spec
from .alg import Alg, from_key, pkey
from .q import Poly, akey, idx_parts, newaxis_only, slots
from .spec import AlgX, boolred, equiv, explain, is_mask, item, spec_graph, unwrap
from .vf import N, analyse, arg, const, first_arg, is_const, mk_op, num, show

sys.setrecursionlimit(20000)
LEAVES = {"const", "param", "global", "poly", "col", "lv", "mu", "exit", "loopvar", "alloc", "closure", "undef", "pi", "inf", "S", "inv", "anyatom",
          "boolatom", "ent", "comp3", "pwrap"}
_CLASS = {}
_KEYS = []


def cls_id(key):
    if key not in _CLASS:
        _CLASS[key] = len(_KEYS)
        _KEYS.append(key)
    return _CLASS[key]


spec.CLASS_KEY[0] = lambda i: _KEYS[i] if i < len(_KEYS) else (const(i),)


class AlgL(AlgX):
    """AlgX that normalises inside every node kind."""

    ELEM = frozenset()

    def argn(self, v):
        if not isinstance(v, N):
            return v
        if v.k in LEAVES and v.k != "poly":
            return v
        if v.k in ("tuple", "list"):
            return N(v.k, *[self.argn(x) for x in v.a])
        if v.k == "slice":
            return N("slice", *[self.argn(x) if isinstance(x, N) else x for x in v.a])
        if v.k == "const":
            return v
        p = self.p(v)
        if len(p.t) == 1:
            (k, c), = p.t.items()
            if c == 1 and len(k) == 1 and k[0][1] == 1:
                return k[0][0]
        return pkey(p)

    def _px(self, n):
        if n.k in ("bool", "boolatom") or (n.k == "un" and n.a[0] == "not"):
            return self.cond(n)
        if n.k == "update" and not is_mask(n.a[1]):
            return unwrap(__import__("sa.q", fromlist=["Poly"]).Poly.atom(self.upd(n)))
        return super()._px(n)

    def cond(self, n):
        if n.k == "cmp" and n.a[0] in ("in", "not in") and n.a[2].k in ("list", "tuple") and 0 < len(n.a[2].a) < 9:
            return super().cond(n)
        if n.k == "cmp" and n.a[0] in ("in", "is", "not in", "is not"):
            a = N("cmp", n.a[0].replace("not ", "").replace(" not", ""), self.argn(n.a[1]), self.argn(n.a[2]))
            return Poly.c(1) - Poly.atom(N("boolatom", a)) if "not" in n.a[0] else Poly.atom(N("boolatom", a))
        r = super().cond(n)
        if len(r.t) == 1:
            (k, c), = r.t.items()
            if len(k) == 1 and k[0][0] == N("boolatom", n) and c == 1 and n.k not in LEAVES:
                return Poly.atom(N("boolatom", self.argn(n) if n.k != "bool" else n))
        return r

    def upd(self, n):
        """Chain of item stores; stores to distinct constant slots are put in canonical order."""
        chain = []
        b = n
        while b.k == "update" and not is_mask(b.a[1]):
            chain.append((self.argn(b.a[1]), self.argn(b.a[2])))
            b = b.a[0]
        base = self.argn(b)
        chain.reverse()

        def const_slot(i):
            ps = i.a if i.k == "tuple" else (i,)
            return all(x.k == "const" or (x.k == "slice" and all(not isinstance(y, N) or y.k == "const" for y in x.a)) for x in ps)

        def disjoint(i, j):
            pi, pj = (x.a if x.k == "tuple" else (x,) for x in (i, j))
            return any(x.k == "const" and y.k == "const" and isinstance(num(x), int) and isinstance(num(y), int) and num(x) != num(y)
                       and (num(x) >= 0) == (num(y) >= 0) for x, y in zip(pi, pj))
        # bubble sort of commuting neighbours
        done = False
        while not done:
            done = True
            for q in range(len(chain) - 1):
                (i, v), (j, w) = chain[q], chain[q + 1]
                if i is j:
                    del chain[q]
                    done = False
                    break
                if const_slot(i) and const_slot(j) and disjoint(i, j) and akey(j) < akey(i):
                    chain[q], chain[q + 1] = chain[q + 1], chain[q]
                    done = False
        for i, v in chain:
            base = N("update", base, i, v)
        return base

    def _node(self, n):
        if n.k in LEAVES:
            return n
        if n.k in ("op", "rcall", "sub", "attr") or (n.k == "bin" and n.a[0] == "@"):
            if n.k == "op" and n.a[0] in ("float", "int", "bool") and len(n.a[1]) == 1:
                return N("op", n.a[0], (("input", self.argn(first_arg(n))),))
            if n.k == "op":
                # the order of several reduced axes does not matter
                a = tuple((k, N("tuple", *sorted(v.a, key=lambda y: num(y)))) if k in ("dim", "axis") and v.k in ("tuple", "list")
                          and all(isinstance(num(y), int) for y in v.a) else (k, v) for k, v in n.a[1])
                if a != n.a[1]:
                    n = N("op", n.a[0], a)
            return super()._node(n)

        def rec(x):
            if isinstance(x, N):
                return self.argn(x)
            if isinstance(x, tuple):
                return tuple(rec(y) for y in x)
            return x
        return N(n.k, *[rec(x) for x in n.a])


def iterated(src):
    """What a for loop runs over: enumerate(x), range(len(x)), range(x.shape[0]), zip(x, ...) and x itself take the same steps."""
    while src.k == "op" and src.a[0] in ("enumerate", "list", "tuple", "iter", "range", "zip") and src.a[1]:
        a = [v for _, v in src.a[1]]
        if src.a[0] == "range":
            if len(a) == 2 and is_const(a[0], 0):
                a = a[1:]
            if len(a) != 1:
                break
            if a[0].k == "op" and a[0].a[0] == "len":
                src = first_arg(a[0])
            elif a[0].k == "sub" and is_const(a[0].a[1], 0) and a[0].a[0].k == "attr" and a[0].a[0].a[1] == "shape":
                src = a[0].a[0].a[0]
            else:
                break
        else:
            src = a[0]
    return src


def fill(x):
    """A constant tensor that is written to afterwards: its size matters."""
    if x.k == "op" and x.a[0] in ("zeros", "ones", "empty", "full") and x.a[1]:
        a = [v for k, v in x.a[1] if k not in ("dtype", "device", "requires_grad", "fill_value")]
        size = list(a[0].a) if len(a) == 1 and a[0].k in ("tuple", "list") else a
        return N("op", "L." + x.a[0], tuple((str(i), v) for i, v in enumerate(size)) + tuple((k, v) for k, v in x.a[1] if k == "fill_value"))
    return x


def new_axis(x, d):
    """x with an axis of size one added at d; the positions in the result are kept, so the order of additions does not matter."""
    if not isinstance(num(d), int):
        return N("op", "L.unsqueeze", (("input", x), ("dim", d)))
    d, pos = num(d), []
    if x.k == "op" and x.a[0] == "L.new":
        pos = [num(v) for v in x.a[1][1][1].a]
        x = x.a[1][0][1]
    pos = [q + 1 if 0 <= d <= q else q - 1 if q <= d < 0 else q for q in pos] + [d]
    return N("op", "L.new", (("input", x), ("dim", N("tuple", *[const(q) for q in sorted(pos)]))))


def axes(r):
    """Operations that move or add axes, as operations the algebra does not look through."""
    if r.k == "update":
        r = N("update", fill(r.a[0]), *r.a[1:])
    if r.k == "sub" and newaxis_only(r.a[1]):
        ps = idx_parts(r.a[1])
        if any(is_const(p, None) for p in ps):
            e = [i for i, p in enumerate(ps) if is_const(p, Ellipsis)]
            at = [i - (len(ps) if e and i > e[0] else 0) for i, p in enumerate(ps) if is_const(p, None)]
            x = r.a[0]
            for i in [i for i in at if i >= 0] + [i for i in reversed(at) if i < 0]:
                x = new_axis(x, const(i))
            return x
        return r.a[0]
    if r.k == "sub" and r.a[1].k == "tuple" and any(is_const(p, None) for p in r.a[1].a) and all(p.k == "slice" or is_const(p, None) or isinstance(num(p), int) for p in r.a[1].a):
        ps = list(r.a[1].a)
        at = [sum(1 for p in ps[:i] if p.k == "slice" or is_const(p, None)) for i, p in enumerate(ps) if is_const(p, None)]
        ps = [p for p in ps if not is_const(p, None)]
        r = N("sub", r.a[0], N("tuple", *ps) if len(ps) > 1 else ps[0])
        for i in at:
            r = new_axis(r, const(i))
        return r
    if r.k == "op" and r.a[0] in ("unsqueeze", "squeeze", "view", "reshape", "flatten", "ravel", "transpose", "permute", "swapaxes", "movedim"):
        x = first_arg(r)
        rest = [v for _, v in r.a[1][1:]]
        if r.a[0] == "unsqueeze":
            return new_axis(x, rest[0])
        if r.a[0] in ("view", "reshape"):
            if len(rest) == 1 and rest[0].k in ("tuple", "list"):
                rest = list(rest[0].a)
            return N("op", "L.shape", (("input", x),) + tuple((str(i), v) for i, v in enumerate(rest)))
        if r.a[0] in ("transpose", "swapaxes"):
            rest = sorted(rest, key=akey)
        return N("op", "L." + r.a[0], (("input", x),) + tuple((str(i), v) for i, v in enumerate(rest)))
    return r


SAME_RANK = {"zeros_like", "ones_like", "full_like", "empty_like", "clone", "detach", "to", "abs", "sqrt", "exp", "normalize", "cross", "clamp", "neg", "contiguous", "requires_grad_",
             "float", "where", "flip", "roll", "softmax", "cumsum", "masked_fill"}
AXIS = {"normalize", "sum", "mean", "cross", "norm", "vector_norm", "cat", "amax", "amin", "softmax", "cumsum", "prod", "all", "any", "argmax", "argmin", "flip"}


def opname(n):
    return n.a[0].rpartition(".")[2] if n.k == "op" else None


class Ranks:
    """Number of axes of a tensor value, where it follows from the operations that build it."""

    def __init__(self):
        self.memo = {}

    def size(self, n):
        """Length of a size expression."""
        if n.k in ("tuple", "list"):
            return len(n.a)
        if n.k == "bin" and n.a[0] == "+":
            a, b = self.size(n.a[1]), self.size(n.a[2])
            return None if a is None or b is None else a + b
        if n.k == "op" and n.a[0] in ("tuple", "list", "size") and len(n.a[1]) == 1:
            return self.size(first_arg(n)) if n.a[0] != "size" else self.rank(first_arg(n))
        if n.k == "attr" and n.a[1] == "shape":
            return self.rank(n.a[0])
        if n.k == "sub" and n.a[1].k == "slice" and is_const(n.a[1].a[0], None) and isinstance(num(n.a[1].a[1]), int):
            k, r = num(n.a[1].a[1]), self.size(n.a[0])
            return k if k >= 0 else None if r is None else r + k
        return None

    def rank(self, n):
        if n in self.memo:
            return self.memo[n]
        self.memo[n] = None
        r = self.memo[n] = self._rank(n)
        return r

    def _rank(self, n):
        if n.k in ("update", ):
            return self.rank(n.a[0])
        if n.k in ("loopvar", "loopout"):
            return self.rank(n.a[2])
        if n.k == "bin":
            a, b = self.rank(n.a[1]), self.rank(n.a[2])
            return None if a is None or b is None or n.a[0] == "@" else max(a, b)
        if n.k == "sub":
            ps = idx_parts(n.a[1])
            if n.a[0].k == "attr" and n.a[0].a[1] == "shape":
                return None
            b = self.rank(n.a[0])
            if b is None or not all(p.k in ("slice", "idx") or is_const(p, None) or is_const(p, Ellipsis) or isinstance(num(p), int) for p in ps):
                return None
            return b - sum(1 for p in ps if p.k == "idx" or (isinstance(num(p), int) and not is_const(p, None))) + sum(1 for p in ps if is_const(p, None))
        o = opname(n)
        if o is None or not n.a[1]:
            return None
        vals = [v for k, v in n.a[1] if k not in ("dtype", "device", "requires_grad", "fill_value")]
        if o in ("zeros", "ones", "empty", "full"):
            k = self.size(vals[0]) if vals else None
            return k if k is not None else len(vals) if vals and all(v.k not in ("param", "tuple", "list") for v in vals) and len(vals) > 1 else None
        if o in SAME_RANK and o != "where":
            return self.rank(first_arg(n))
        if o == "unsqueeze":
            b = self.rank(first_arg(n))
            return None if b is None else b + 1
        if o in ("reshape", "view", "expand"):
            return self.size(vals[1]) if len(vals) == 2 and vals[1].k in ("tuple", "list") else len(vals) - 1 if len(vals) > 2 else None
        if o in ("cat", "stack") and vals[0].k in ("tuple", "list") and vals[0].a:
            for v in vals[0].a:
                b = self.rank(v)
                if b is not None:
                    return b + (o == "stack")
        return None

    def canon(self, n):
        """Index and axis arguments counted in one way."""
        if n.k == "sub" and n.a[1].k == "tuple" and any(is_const(p, Ellipsis) for p in n.a[1].a):
            b, ps = self.rank(n.a[0]), list(n.a[1].a)
            if b is not None and all(p.k in ("slice", "idx") or is_const(p, None) or is_const(p, Ellipsis) or isinstance(num(p), int) for p in ps):
                k = b - sum(1 for p in ps if not is_const(p, None) and not is_const(p, Ellipsis))
                i = [is_const(p, Ellipsis) for p in ps].index(True)
                if k >= 0:
                    full = N("slice", const(None), const(None), const(None))
                    return N("sub", n.a[0], N("tuple", *ps[:i], *[full] * k, *ps[i + 1:]))
        if n.k == "op" and opname(n) in AXIS and any(k in ("dim", "axis") for k, _ in n.a[1]):
            x = first_arg(n)
            if opname(n) == "cat":
                b = next((r for r in map(self.rank, x.a) if r is not None), None) if x.k in ("tuple", "list") else None
            else:
                b = self.rank(x)
            if b is not None:
                fix = lambda v: const(num(v) - b) if isinstance(num(v), int) and 0 <= num(v) < b else v
                return N("op", n.a[0], tuple((k, fix(v) if k in ("dim", "axis") else v) for k, v in n.a[1]))
        return n


def base_of(it):
    while it.k == "op" and it.a[0] in ("list", "tuple") and len(it.a[1]) == 1:
        it = first_arg(it)
    return it


def swap(n, old, new, memo=None):
    memo = {} if memo is None else memo
    if n is old:
        return new
    if n.k == "loopvar":
        return n
    if n not in memo:
        def rec(x):
            return swap(x, old, new, memo) if isinstance(x, N) else tuple(rec(y) for y in x) if isinstance(x, tuple) else x
        a = tuple(rec(x) for x in n.a)
        memo[n] = n if a == n.a else N(n.k, *a)
    return memo[n]


def outside(n, stop):
    """Values n is made of, not looking into stop."""
    seen, todo = set(), [n]
    while todo:
        x = todo.pop()
        if x is stop or x in seen:
            continue
        seen.add(x)
        if x.k != "loopvar":
            todo += [y for y in x.kids() if isinstance(y, N)]
    return seen


class Promote:
    """Scalar promotion: a loop that only reads and rewrites one fixed slot of an array carries that slot; a loop that overwrites every slot of a
    list is a comprehension.  One pass; values are rewritten with it."""

    def __init__(self, body):
        self.memo, self.prom, self.filled, self.flat, self.count, self.info, self.split = {}, {}, {}, {}, {}, {}, {}
        for lv, (fv, info, at) in body.items():
            d = lv.a[2]
            if d.k == "dict" and d.a[0] and all(k.k == "const" for k, _ in d.a[0]) and len({k for k, _ in d.a[0]}) == len(d.a[0]):
                slots_ = {k: N("loopvar", f"{lv.a[0]}.{k.a[0].v}", lv.a[1], v) for k, v in d.a[0]}
                new = {k: (self.entry(fv, lv, k, sv), [self.entry(x, lv, k, sv) for x in at]) for k, sv in slots_.items()}
                if all(w is not None and None not in ats for w, ats in new.values()):
                    self.split[lv] = (slots_, new, fv)
        if self.split:
            self.flat_inner = {}
            self.apply(body)
            return
        self.flatten(body)
        self.flat_inner = {v[0]: lv for lv, v in self.flat.items()}
        if self.flat:
            self.apply(body)
            return
        for lv, (fv, info, at) in body.items():
            if at or info["breaks"]:
                continue
            if info["src"].k != "whileiter" and fv.k == "bin" and fv.a[0] == "+" and any(x is lv and num(y) == 1 and y.k == "const" for x, y in (fv.a[1:3], fv.a[2:0:-1])) \
                    and isinstance(num(lv.a[2]), int) and lv.a[2].k == "const":
                i = N("idx", base_of(info["src"]))
                self.count[lv] = i if num(lv.a[2]) == 0 else N("bin", "+", lv.a[2], i)
                continue
            src, lid = info["src"], lv.a[1]
            bases = set(src.subs())
            if src.k == "op" and src.a[0] == "range" and len(src.a[1]) == 2:
                bases.add(mk_op("range", [src.a[1][1][1]], {}))
            own = lambda x: (x.k == "loopvar" and x.a[1] == lid) or (x.k in ("idx", "elem") and x.a[0] in bases) or (x.k == "whileiter" and x.a[0] == lid) or x.k == "loopout"
            chain, b = [], fv
            while b.k == "update" and not is_mask(b.a[1]):
                chain.append((b.a[1], b.a[2]))
                b = b.a[0]
            if b is not lv or not chain or any(i is not chain[0][0] for i, _ in chain[1:]):
                continue
            i, w = chain[0]
            if not any(own(x) for x in i.subs()):
                r = self.only_slot(w, lv, i)
                if r is not None:
                    init = lv.a[2]
                    first = self.read(init, i)
                    sv = N("loopvar", "$" + str(lv.a[0]), lid, first)
                    self.prom[lv] = (i, sv, fv, w)
            elif i.k == "idx" and i.a[0] is src and src.k == "op" and src.a[0] == "range" and len(src.a[1]) == 1 and lv not in w.subs() and self.length(lv.a[2], body) is src:
                self.filled[lv] = (fv, w, src)
        self.apply(body)

    def flatten(self, body):
        """for x in xs: for y in f(x): ... with nothing else in the outer loop is one loop over [y for x in xs for y in f(x)]."""
        loops = {}
        for lv, v in body.items():
            loops.setdefault(lv.a[1], {})[lv] = v
        for lid, vs in loops.items():
            info = next(iter(vs.values()))[1]
            # a name that only holds what the last iteration left in it
            vs = {lv: v for lv, v in vs.items() if any(lv in w[0].subs() for w in vs.values()) or lv in v[0].subs() or v[0].k == "loopout"}
            if not vs or info["breaks"] or info["src"].k == "whileiter" or not all(fv.k == "loopout" and fv.a[2] is lv for lv, (fv, _, _) in vs.items()):
                continue
            inner = {fv.a[0] for fv, _, _ in vs.values()}
            if len(inner) != 1:
                continue
            li = inner.pop()
            ws = loops.get(li, {})
            by = {lv.a[2]: (lv, v) for lv, v in ws.items()}
            if not set(vs) <= set(by):
                continue
            iinfo = by[next(iter(vs))][1][1]
            src, outer = iinfo["src"], info["src"]
            if iinfo["breaks"] or src.k == "whileiter" or src.k == "op" and src.a[0] in ("range", "zip", "enumerate"):
                continue
            comp = N("comp", "list", N("elem", src), (outer, src), ())
            old = new = N("elem", src)
            ok, res = True, {}
            for lv, (fv, _, _) in vs.items():
                iv, (w, _, _) = by[lv]
                ok = ok and w is fv.a[3] and not any(lv2 in src.subs() for lv2 in [*vs, *ws])
                x = swap(w, old, new)
                ok = ok and not any((y.k in ("elem", "idx") and y.a[0] is outer) or (y.k == "idx" and y.a[0] is src) for y in outside(x, new))
                res[iv] = (lv, x)
            if not ok:
                continue
            nid = li + "*"
            ninfo = dict(iinfo, src=comp, lid=nid)
            self.info[nid] = ninfo
            for iv, (lv, x) in res.items():
                self.flat[lv] = (iv, N("loopvar", lv.a[0], nid, lv.a[2]), x, ninfo, vs[lv][0])

    def apply(self, body):
        self.body = {}
        gone = {v[0] for v in self.flat.values()}
        for lv, (fv, info, at) in body.items():
            if lv in self.count or lv in gone:
                continue
            if lv in self.split:
                slots_, new, _ = self.split[lv]
                for k, sv in slots_.items():
                    self.body[self.pre(sv)] = (self.pre(new[k][0]), info, [self.pre(x) for x in new[k][1]])
            elif lv in self.prom:
                i, sv, _, w = self.prom[lv]
                self.body[self.pre(sv)] = (self.pre(w), info, [])
            elif lv in self.flat:
                iv, nv, w, ninfo, _ = self.flat[lv]
                self.body[self.pre(lv)] = (self.pre(w), ninfo, [])
            else:
                self.body[self.pre(lv)] = (self.pre(fv), info, [self.pre(x) for x in at])

    def some(self):
        return self.prom or self.filled or self.flat or self.count or self.split

    @classmethod
    def entry(cls, n, lv, k, sv):
        """Entry k of a dictionary that starts an iteration as lv; None when it cannot be told."""
        if n is lv:
            return sv
        if n.k == "update" and n.a[1].k == "const":
            return n.a[2] if n.a[1] is k else cls.entry(n.a[0], lv, k, sv)
        if n.k == "phi":
            a, b = cls.entry(n.a[1], lv, k, sv), cls.entry(n.a[2], lv, k, sv)
            return None if a is None or b is None else a if a is b else N("phi", n.a[0], a, b)
        if n.k == "loopout":
            return N("sub", n, k)
        return None

    @staticmethod
    def read(b, i):
        r = b.a[2] if b.k == "update" and b.a[1] is i else N("sub", b, i)
        return const(0) if r.k == "op" and r.a[0] == "zeros_like" else r

    @staticmethod
    def only_slot(w, lv, i):
        """lv is used in w only to read slot i."""
        seen, todo = set(), [w]
        while todo:
            x = todo.pop()
            if x in seen or lv not in x.subs():
                continue
            seen.add(x)
            if x is lv:
                return None
            if x.k == "sub" and x.a[0] is lv and x.a[1] is i:
                continue
            todo += [y for y in x.kids() if isinstance(y, N)]
        return w

    def length(self, n, body, seen=()):
        """The range a list was built over, through item stores and loops that keep its length."""
        while True:
            if n.k == "update":
                n = n.a[0]
            elif n.k == "loopout":
                a, b = self.length(n.a[2], body, seen), self.length(n.a[3], body, seen)
                return a if b in (a, "same") else b if a == "same" else None
            elif n.k == "loopvar":
                if n in seen:
                    return "same"
                if n not in body:
                    return None
                a = self.length(n.a[2], body, seen + (n,))
                return a if all(self.length(x, body, seen + (n,)) in (a, "same") for x in [body[n][0], *body[n][2]]) else None
            elif n.k == "comp":
                return n.a[2][0] if n.a[0] == "list" and len(n.a[2]) == 1 and not n.a[3] else None
            else:
                return None

    def pre(self, n):
        r = self.memo.get(n)
        if r is not None:
            return r
        if not self.some():
            return n
        if n in self.count:
            r = self.pre(self.count[n])
        elif n in self.split:
            r = N("dict", tuple((k, self.pre(sv)) for k, sv in self.split[n][0].items()))
        elif n in self.flat or n in self.flat_inner:
            nv = self.flat[n if n in self.flat else self.flat_inner[n]][1]
            r = N("loopvar", nv.a[0], nv.a[1], self.pre(nv.a[2]))
        elif n in self.prom:
            i, sv, _, _ = self.prom[n]
            r = N("update", self.pre(n.a[2]), self.pre(i), self.pre(sv))
        elif n.k in ("const", "param", "global", "undef"):
            r = n
        else:
            r = None
            if n.k == "loopout":
                for lv, (slots_, new, fv) in self.split.items():
                    if n.a[3] is fv and n.a[2] is lv.a[2]:
                        r = N("dict", tuple((k, N("loopout", n.a[0], self.pre(n.a[1]), self.pre(sv.a[2]), self.pre(new[k][0]))) for k, sv in slots_.items()))
                for lv, (iv, nv, w, ninfo, fv) in self.flat.items():
                    if n.a[3] is fv and n.a[2] is lv.a[2]:
                        r = N("loopout", ninfo["lid"], self.pre(ninfo["src"]), self.pre(n.a[2]), self.pre(w))
                for lv, (i, sv, fv, w) in self.prom.items():
                    if n.a[3] is fv and n.a[2] is lv.a[2]:
                        init = self.pre(n.a[2])
                        r = N("update", init, self.pre(i), N("loopout", n.a[0], self.pre(n.a[1]), self.read(init, self.pre(i)), self.pre(w)))
                for lv, (fv, w, src) in self.filled.items():
                    if r is None and n.a[3] is fv and n.a[2] is lv.a[2]:
                        r = N("comp", "list", self.pre(w), (self.pre(src),), ())
            if r is None:
                def rec(x):
                    return self.pre(x) if isinstance(x, N) else tuple(rec(y) for y in x) if isinstance(x, tuple) else x
                a = tuple(rec(x) for x in n.a)
                r = n if a == n.a else N(n.k, *a)
                if r.k in ("update", "loopvar", "loopout") and r.a[2].k == "op" and r.a[2].a[0] == "zeros_like":
                    r = N(r.k, *r.a[:2], const(0), *r.a[3:])
                if r.k == "update" and r.a[0].k == "dict" and any(k is r.a[1] for k, _ in r.a[0].a[0]):
                    r = N("dict", tuple((k, r.a[2] if k is r.a[1] else v) for k, v in r.a[0].a[0]))
                if r.k == "sub" and r.a[0].k == "dict" and any(k is r.a[1] for k, _ in r.a[0].a[0]):
                    r = next(v for k, v in r.a[0].a[0] if k is r.a[1])
                elif r.k == "sub" and r.a[0].k == "update" and r.a[0].a[1] is r.a[1]:
                    r = r.a[0].a[2]
                elif r.k == "sub" and r.a[0].k == "comp" and r.a[0].a[0] == "list" and r.a[1].k == "idx" and len(r.a[0].a[2]) == 1 and not r.a[0].a[3] \
                        and r.a[1].a[0] is r.a[0].a[2][0]:
                    r = r.a[0].a[1]
        self.memo[n] = r
        return r


class Canon:
    """Rewrites the values of one graph so that loops are named canonically."""

    def __init__(self, interp, A, rounds=5, layout=False):
        self.A, self.it, self.layout = A, interp, layout
        self.body, self.passes, self.ranks, self.info = interp.loopbody, [], Ranks(), interp.loopinfo
        for _ in range(4):
            p = Promote(self.body)
            if not p.some():
                break
            self.passes.append(p)
            self.info = {**self.info, **p.info}
            self.body = p.body
        self.zips = {}
        for _, info, _ in self.body.values():
            src = info["src"]
            while src.k == "op" and src.a[0] in ("enumerate", "list", "tuple") and src.a[1]:
                src = first_arg(src)
            if src.k == "op" and src.a[0] == "zip":
                for _, y in src.a[1][1:]:
                    self.zips[base_of(y)] = iterated(src)
        self.h = {lv: N("lv", 0) for lv in self.body}
        self.memo = {}
        for _ in range(rounds if self.body else 0):
            new = {}
            for lv, (fv, info, at) in self.body.items():
                first = self.rw(lv.a[2])
                if isinstance(num(first), (int, float)) and not isinstance(num(first), bool):
                    first = pkey(A.p(first))
                key = (A.argn(fill(first) if self.layout else first), A.argn(self.rw(fv)), self.exit(info), tuple(A.argn(self.rw(x)) for x in at))
                new[lv] = N("lv", cls_id(key))
            self.h, self.memo = new, {}

    def rw(self, n):
        for p in self.passes:
            n = p.pre(n)
        return self._rw(n)

    def exit(self, info):
        A = self.A
        if info["src"].k == "whileiter":
            t = N("while", pkey(A.cond(self.rw(info["test"]))))
        else:
            t = A.argn(self.rw(iterated(info["src"])))
        return N("exit", t, *[pkey(A.cond(self.rw(c))) if c is not None else const(True) for c, _ in info["breaks"]])

    @staticmethod
    def written(n):
        """The entries of a vector of fixed length that are all written one by one."""
        vals = {}
        while n.k == "update" and isinstance(num(n.a[1]), int) and n.a[1].k == "const":
            vals.setdefault(num(n.a[1]), n.a[2])
            n = n.a[0]
        if not (n.k == "op" and n.a[0] in ("zeros", "empty", "ones") and len(vals) > 1 and n.a[1] and n.a[1][0][0] not in ("dtype", "device")):
            return None
        size = n.a[1][0][1]
        if sum(1 for k, _ in n.a[1] if k not in ("dtype", "device", "requires_grad")) > 1:
            return None
        if size.k in ("tuple", "list") and len(size.a) == 1:
            size = size.a[0]
        k = num(size) if size.k == "const" else None
        if not isinstance(k, int) or set(vals) != set(range(k)):
            return None
        return [vals[i] for i in range(k)]

    def _rw(self, n):
        r = self.memo.get(n)
        if r is not None:
            return r
        if self.layout and n.k in ("sub", "op"):
            c = self.ranks.canon(n)
            if c is not n:
                r = self.memo[n] = self._rw(c)
                return r
        w = self.written(n) if n.k == "update" else None
        if w is not None:
            r = self._rw(N("op", "stack", (("tensors", N("tuple", *w)),)))
        elif n.k == "idx" and iterated(n.a[0]) is not n.a[0]:
            r = self._rw(N("idx", iterated(n.a[0])))
        elif n.k == "sub" and n.a[1].k == "idx" and iterated(n.a[1].a[0]) is n.a[0]:
            r = self._rw(N("elem", n.a[0]))
        elif n.k == "elem" and n.a[0] in self.zips:
            r = self._rw(N("sub", n.a[0], N("idx", self.zips[n.a[0]])))
        elif n.k == "loopvar":
            r = self.h.get(n, n)
        elif n.k == "loopout":
            info = self.info.get(n.a[0])
            ex = self.exit(info) if info else const(n.a[0])
            first = self._rw(n.a[2])
            if isinstance(num(first), (int, float)) and not isinstance(num(first), bool):
                first = pkey(self.A.p(first))
            r = N("mu", cls_id((ex, self.A.argn(first), self.A.argn(self._rw(n.a[3])))))
        elif n.k == "whileiter":
            info = self.info.get(n.a[0])
            r = self.exit(info) if info else n
        elif (n.k == "fstr" and any(x.k == "const" and " " in str(x.a[0].v) for x in n.a)) or (n.k == "const" and isinstance(n.a[0].v, str) and " " in n.a[0].v):
            r = const("<some text>")      # messages: wording is not judged
        elif n.k in ("const", "param", "global", "undef"):
            r = n
        else:
            def rec(x):
                if isinstance(x, N):
                    return self._rw(x)
                if isinstance(x, tuple):
                    return tuple(rec(y) for y in x)
                return x
            a = tuple(rec(x) for x in n.a)
            if n.k == "comp" and len(a) > 2 and isinstance(a[2], tuple):
                a = a[:2] + (tuple(iterated(x) if isinstance(x, N) else x for x in a[2]),) + a[3:]
                if len(a[3]) > 0:
                    # the conditions of a filter are judged as one
                    c = Poly.c(1)
                    for x, pol in a[3]:
                        p = self.A.cond(x)
                        c = boolred(c * (p if pol else Poly.c(1) - p))
                    a = a[:3] + (((pkey(c), True),),) + a[4:]
            r = n if a == n.a else N(n.k, *a)
            if r.k == "op" and r.a[0] in ("stack", "cat") and any(k == "dim" and is_const(v, 0) for k, v in r.a[1]):
                r = N("op", r.a[0], tuple((k, v) for k, v in r.a[1] if k != "dim"))
            if self.layout:
                r = axes(r)
        self.memo[n] = r
        return r


def spec_compare(repo, R, rule, qual, text, names=None, A=None, inline=(), opaque=(), pick=None, rounds=5, class_of_self=None, layout=False):
    """Compare a function with a reference body, result by result, modulo loops (layout: added and moved axes matter)."""
    f = repo.func(qual)
    g = analyse(repo, qual, inline=inline, opaque=opaque, class_of_self=class_of_self)
    A = A or AlgL()
    cg = Canon(g.interp, A, rounds, layout)
    R.analysed(qual)
    rg = g.ret()
    names = names or ("result",)
    refs = []

    def ref(k):
        if k == len(refs):
            s = spec_graph(repo, qual, texts[k], inline=inline, opaque=opaque, class_of_self=class_of_self)
            refs.append((s, Canon(s.interp, A, rounds, layout)))
        return refs[k]
    texts = text if isinstance(text, (list, tuple)) else [text]
    for i, nm in enumerate(names):
        msg = None
        for k in range(len(texts)):
            s, cs = ref(k)
            rs = s.ret()
            try:
                a, b = (item(rg, i), item(rs, i)) if len(names) > 1 else (rg, rs)
                x = equiv(A, cg.rw(a), cs.rw(b))
                x = None if x is None else explain(x)[:500]
            except (IndexError, TypeError) as e:
                x = f"result has another structure ({e})"
            if x is None:
                msg = None
                break
            msg = msg or x
        R.ob(rule, f"{f.name}.{nm}", msg is None, f"{f.file}:{f.line}", msg or "")
    return g, refs[0][0]


def final_attrs(g):
    """Attribute values of `self` at the end."""
    out = {}
    for (b, a), v in g.final.heap.items():
        if b.k == "param" and b.a[1] == "self":
            out[a] = g.interp.snap(v, g.final)
    return out


def raise_condition(g, A, c):
    """0/1 polynomial: an exception is raised explicitly (disjunction over the raise sites, each under its own path condition)."""
    ok = Poly.c(1)
    for e in g.events:
        if e.kind != "raise":
            continue
        p = Poly.c(1)
        for n, pol, _ in e.pc:
            x = A.cond(c.rw(n))
            p = p * (x if pol else Poly.c(1) - x)
        ok = boolred(ok * (Poly.c(1) - p))
    return Poly.c(1) - ok


def attrs_compare(repo, R, rule, qual, texts, A=None, inline=(), opaque=(), raises=False, skip=()):
    """Attributes of self set by a reference body (or one of several) have the same values in the code."""
    f = repo.func(qual)
    A = A or AlgL()
    texts = [texts] if isinstance(texts, str) else texts
    g = analyse(repo, qual, inline=inline, opaque=opaque)
    cg = Canon(g.interp, A)
    have = final_attrs(g)
    R.analysed(qual)
    where = f"{f.file}:{f.line}"
    specs = []
    for t in texts:
        s = spec_graph(repo, qual, t, inline=inline, opaque=opaque)
        specs.append((s, Canon(s.interp, A), final_attrs(s)))
    for a in specs[0][2]:
        if a in skip:
            continue
        first = None
        for s, cs, want in specs:
            if a not in have:
                first = first or ("missing",)
                continue
            x = equiv(A, cg.rw(have[a]), cs.rw(want[a]))
            if x is None:
                first = None
                break
            first = first or x
        R.ob(rule, f"{f.cls.name if f.cls else ''}.{a}", first is None, where,
             "" if first is None else "attribute is not set" if len(first) == 1 else explain(first)[:500])
    if raises:
        s, cs, _ = specs[0]
        x = equiv(A, raise_condition(g, A, cg), raise_condition(s, A, cs))
        R.ob(rule, f"{f.cls.name if f.cls else ''}.{f.name}.raises", x is None, where, "" if x is None else "condition of the error: " + explain(x)[:400])

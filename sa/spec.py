"""Reference formulas: small Python texts written from the documentation, parsed by the same value-flow engine under the same
parameter names, and compared with the code by algebraic normal form (never executed)."""
from __future__ import annotations

import ast
import textwrap
from fractions import Fraction

from .alg import Alg, pkey, from_key, neg_lead
from .q import Poly, akey, peel, idx_parts, full_slice, newaxis_only, slots
from .vf import N, Interp, arg, cval, const, first_arg, is_const, num, show
from .repo import Func, AnalysisError


def spec_graph(repo, qual, text, inline=(), class_of_self=None, params=None, opaque=()):
    """Graph of a reference body: same qualified name, parameters, annotations and module as the analysed function."""
    f = repo.func(qual)
    body = ast.parse(textwrap.dedent(text)).body
    node = ast.FunctionDef(name=f.name, args=f.node.args, body=body, decorator_list=[], returns=f.node.returns, lineno=0, col_offset=0)
    node.end_lineno = 0
    g = Func(f.qual, node, f.module, f.cls)
    it = Interp(repo, inline, opaque, True, class_of_self)
    gr = it.run(g)
    gr.interp = it
    gr.types = it.types
    return gr


def is_bool_atom(a):
    return isinstance(a, N) and (a.k in ("cmp", "boolatom") or (a.k == "op" and a.a[0] in ("isfinite", "isnan", "isinf", "isclose")))


def boolred(p):
    """b*b = b for 0/1 atoms."""
    if not any(is_bool_atom(a) and e > 1 for k in p.t for a, e in k):
        return p
    out = {}
    for k, v in p.t.items():
        kk = tuple((a, 1 if is_bool_atom(a) and e > 1 else e) for a, e in k)
        out[kk] = out.get(kk, 0) + v
    return Poly(out)


def value(p):
    return p.t.get((), 0)


def euclidean(n):
    """The order of a norm (or normalisation) is 2, given or by default."""
    o = [arg(n, x) for x in ("p", "ord")]
    o = [x for x in o if x is not None and not is_const(x, None)]
    e = num(arg(n, "eps")) if arg(n, "eps") is not None else None
    return all(num(x) == 2 or is_const(x, "fro") for x in o) and (e is None or not isinstance(e, (int, float)) or e <= 1e-4)


class BPoly:
    pass


def is_mask(n, d=0):
    if d > 12:
        return False
    if n.k == "cmp":
        return n.a[0] in ("<", "<=", "==", "!=")
    if n.k == "un" and n.a[0] == "~":
        return True
    if n.k == "bin" and n.a[0] in ("&", "|"):
        return True
    if n.k == "sub" and n.a[1].k != "const":
        return is_mask(n.a[0], d + 1)
    if n.k == "op" and n.a[0] in ("bool", "isfinite", "isnan"):
        return True
    if n.k == "op" and n.a[0] in ("to", "clone", "view", "reshape", "unsqueeze", "expand") and n.a[1]:
        return is_mask(first_arg(n), d + 1)
    if n.k == "phi":
        return is_mask(n.a[1], d + 1) and is_mask(n.a[2], d + 1)
    return False


class AlgX(Alg):
    """Alg with last-axis reductions, masks, mask stores, stacked columns, norms and cross products."""

    def __init__(self, leaf=None, strip3=True, last=(-1,), positive=None):
        super().__init__(leaf)
        self.strip3 = strip3
        self.last = last          # dim numbers that denote the last axis
        self.positive = positive or (lambda a: False)

    def p(self, n):
        r = self.memo.get(n)
        if r is None:
            r = self.memo[n] = boolred(self._px(n))
        return r

    # ---- helpers
    def S(self, p):
        """Sum over the last axis, linear; each monomial becomes one atom."""
        out = Poly()
        for k, v in p.t.items():
            inner = tuple((a, e) for a, e in k if not self.scalar(a))
            outer = tuple((a, e) for a, e in k if self.scalar(a))
            at = Poly.atom(N("S", pkey(Poly({inner: Fraction(1)})))) if inner else Poly.atom(N("S", pkey(Poly.c(1))))
            out = out + at * Poly({outer: v})
        return out

    def scalar(self, a):
        return isinstance(a, N) and a.k in ("S", "pi")

    def is_last(self, d):
        return d is not None and (num(d) in self.last)

    def cross(self, a, b):
        sg = 1
        if neg_lead(a):
            a, sg = -a, -sg
        if neg_lead(b):
            b, sg = -b, -sg
        ka, kb = pkey(a), pkey(b)
        if kb._id < ka._id:
            ka, kb, sg = kb, ka, -sg
        r = Poly.atom(N("op", "cross", (("input", ka), ("other", kb))))
        return r if sg > 0 else -r

    def cmpz(self, p):
        """Canonical form of p < 0 as an indicator polynomial."""
        if p.is_const():
            return Poly.c(int(p.const() < 0))
        # divide by the common positive monomial content and by the leading magnitude
        common = None
        for k in p.t:
            d = {a: e for a, e in k if self.positive(a)}
            common = d if common is None else {a: min(e, d.get(a, 0)) for a, e in common.items() if a in d} | {a: min(0, e) for a, e in d.items() if a not in common and e < 0} | {a: e for a, e in common.items() if a not in d and e < 0}
        if common:
            m = Poly({tuple(sorted(((a, -e) for a, e in common.items() if e), key=lambda x: (akey(x[0]), x[1]))): Fraction(1)})
            p = p * m
        k0 = min(p.t, key=lambda kk: str([(akey(a), e) for a, e in kk]))
        p = p * Poly.c(1 / abs(p.t[k0]))
        return Poly.atom(N("cmp", "<", pkey(p)))

    def _px(self, n):
        if self.leaf is not None:
            r = self.leaf(n)
            if r is not None:
                return r
        k = n.k
        if k == "const" and cval(n) in (float("inf"), float("-inf")):
            return Poly.atom(N("inf")) if cval(n) > 0 else -Poly.atom(N("inf"))
        if k == "global" and n.a[0] in ("torch.inf", "math.inf", "numpy.inf"):
            return Poly.atom(N("inf"))
        if k == "cmp" and n.a[0] in ("<", "<=", "==", "!="):
            op, l, r = n.a
            a, b = self.p(l), self.p(r)
            if op == "<":
                return self.cmpz(a - b)
            if op == "<=":
                return Poly.c(1) - self.cmpz(b - a)
        if k == "phi":
            c = self.cond(n.a[0])
            return boolred(c * self.p(n.a[1]) + (Poly.c(1) - c) * self.p(n.a[2]))
        if k == "op" and n.a[0] in ("any", "all") and len(n.a[1]) == 1:
            return self.cond(n)
        if k == "update":
            i, v = n.a[1], n.a[2]
            if is_mask(i):
                c = self.p(i)
                vv = v
                if v.k == "sub" and v.a[1] is i:
                    vv = v.a[0]
                return boolred(c * self.p(vv) + (Poly.c(1) - c) * self.p(n.a[0]))
        if k == "sub" and n.a[0].k == "op" and n.a[0].a[0] in ("min", "max") and num(n.a[1]) == 0 and self.is_last(arg(n.a[0], "dim")):
            return self.p(N("op", "a" + n.a[0].a[0], tuple(x for x in n.a[0].a[1] if x[0] in ("input", "dim"))))
        if k == "attr" and n.a[1] == "values" and n.a[0].k == "op" and n.a[0].a[0] in ("min", "max") and self.is_last(arg(n.a[0], "dim")):
            return self.p(N("op", "a" + n.a[0].a[0], tuple(x for x in n.a[0].a[1] if x[0] in ("input", "dim"))))
        if k == "sub":
            ps = [q for q in idx_parts(n.a[1]) if not is_const(q, None)]
            if self.strip3 and len(ps) > 1 and ps[-1].k == "slice" and all(full_slice(q) or is_const(q, Ellipsis) for q in ps[:-1]) \
                    and num(ps[-1].a[1]) == 3 and is_const(ps[-1].a[0], None) and is_const(ps[-1].a[2], None):
                return self.p(n.a[0])
            if self.strip3 and len(ps) == 2 and ps[-1].k == "slice" and num(ps[-1].a[1]) == 3 and is_const(ps[-1].a[0], None) and is_const(ps[-1].a[2], None):
                return self.p(N("sub", n.a[0], ps[0]))
            # x[i][:, None] written as x[i, None]
            raw = idx_parts(n.a[1])
            if len(raw) > 1 and any(is_const(q, None) for q in raw):
                keep = [q for q in raw if not is_const(q, None)]
                while len(keep) > 1 and full_slice(keep[-1]):
                    keep = keep[:-1]
                if keep and not (len(keep) == 1 and full_slice(keep[0])):
                    i = keep[0] if len(keep) == 1 else N("tuple", *keep)
                    return self.p(N("sub", n.a[0], i))
            # x[idx, c] == x[idx][:, c]
            if len(ps) == 2 and isinstance(num(ps[1]), int) and not full_slice(ps[0]) and num(ps[0]) is None and ps[0].k != "slice" and not is_const(ps[0], Ellipsis):
                return self.p(N("sub", N("sub", n.a[0], ps[0]), N("tuple", N("slice", const(None), const(None), const(None)), ps[1])))
        if k == "op":
            nm = n.a[0]
            if nm in ("sum", "amin", "amax") and self.is_last(arg(n, "dim")):
                w = self.width(first_arg(n))
                if w:
                    cols = [self.colx(first_arg(n), i) for i in range(w)]
                    if nm == "sum":
                        r = Poly()
                        for c in cols:
                            r = r + c
                        return r
                    return self.extremum("min" if nm == "amin" else "max", cols)
            if nm == "repeat" and len(n.a[1]) > 1 and num(n.a[1][1][1]) == 1:
                return self.p(first_arg(n))     # broadcast copy along inner axes
            if nm == "minimum":
                return self.extremum("min", [self.p(v) for _, v in n.a[1]])
            if nm == "sum" and self.is_last(arg(n, "dim")):
                return self.S(self.p(first_arg(n)))
            if nm in ("torch.linalg.vecdot", "vecdot") and len(n.a[1]) >= 2:
                return self.S(self.p(n.a[1][0][1]) * self.p(n.a[1][1][1]))
            if nm == "norm" and self.is_last(arg(n, "dim")) and euclidean(n):
                w = self.width(first_arg(n))
                if w:
                    r = Poly()
                    for i in range(w):
                        c = self.colx(first_arg(n), i)
                        r = r + c * c
                    return self.power(r, 0.5)
                a = self.p(first_arg(n))
                return self.power(self.S(a * a), 0.5)
            if nm in ("torch.nn.functional.normalize", "normalize") and (arg(n, "dim") is None or self.is_last(arg(n, "dim"))) and euclidean(n):
                a = self.p(first_arg(n))
                return self.div(a, self.power(self.S(a * a), 0.5))
            if nm in ("masked_fill", "masked_fill_") and len(n.a[1]) == 3:
                c = self.p(arg(n, "mask"))
                return boolred(c * self.p(arg(n, "value")) + (Poly.c(1) - c) * self.p(first_arg(n)))
            if nm == "cross" and len(n.a[1]) >= 2:
                return self.cross(self.p(n.a[1][0][1]), self.p(n.a[1][1][1]))
            if nm in ("relu", "torch.nn.functional.relu"):
                return self.clampmin(self.p(first_arg(n)), Poly.c(0))
            if nm == "clamp":
                lo, hi = arg(n, "min"), arg(n, "max")
                x = self.p(first_arg(n))
                none = lambda v: v is None or is_const(v, None)
                if none(hi):
                    return x if none(lo) else self.clampmin(x, self.p(lo))
                if none(lo):
                    return -self.clampmin(-x, -self.p(hi))
                return self.clamp(x, self.p(lo), self.p(hi))
            if nm == "linspace" and num(arg(n, "start")) == 0 and arg(n, "steps") is not None and self.p(arg(n, "end")) == self.p(arg(n, "steps")) - Poly.c(1):
                return self.p(N("op", "arange", (("0", arg(n, "steps")),)))
            if nm == "arange" and [k for k, _ in n.a[1] if k in "0123"] == ["0", "1"] and num(n.a[1][0][1]) == 0:
                return self.p(N("op", "arange", (("0", n.a[1][1][1]),)))
            if nm == "minimum" and len(n.a[1]) == 2:
                a, b = self.p(n.a[1][0][1]), self.p(n.a[1][1][1])
                if a.is_const() or b.is_const():
                    return -self.clampmin(-b, -a) if a.is_const() else -self.clampmin(-a, -b)
            if nm == "maximum" and len(n.a[1]) == 2:
                a, b = self.p(n.a[1][0][1]), self.p(n.a[1][1][1])
                if a.is_const():
                    a, b = b, a
                return self.clampmin(a, b) if b.is_const() else Poly.atom(N("op", "maximum", tuple(sorted((("x", pkey(a)), ("x", pkey(b))), key=lambda z: z[1]._id))))
            if nm in ("isfinite",):
                return Poly.atom(N("op", "isfinite", (("input", self.argn(first_arg(n))),)))
            if nm in ("deg2rad", "math.radians"):
                return self.p(first_arg(n)) * Poly.atom(N("pi")) * Poly.c(Fraction(1, 180))
            if nm in ("rad2deg", "math.degrees"):
                return self.div(self.p(first_arg(n)) * Poly.c(180), Poly.atom(N("pi")))
            if nm in ("exp",):
                a = self.p(first_arg(n))
                return Poly.atom(N("op", "exp", (("input", pkey(a)),)))
            if nm in ("sigmoid", "tanh", "log", "floor", "ceil", "acos", "asin", "atan", "softplus", "torch.nn.functional.softplus"):
                rest = tuple((kk, self.argn(v)) for kk, v in n.a[1][1:])
                return Poly.atom(N("op", nm.rpartition(".")[2], (("input", pkey(self.p(first_arg(n)))),) + rest))
        return unwrap(boolred(super()._p(n)))

    def truth_list(self, n):
        """Truth value of a list expression, None when it is not one."""
        if n.k in ("list", "tuple"):
            return Poly.c(1 if n.a else 0)
        if n.k == "append":
            return Poly.c(1)
        if n.k == "phi":
            a, b = self.truth_list(n.a[1]), self.truth_list(n.a[2])
            if a is None or b is None:
                return None
            c = self.cond(n.a[0])
            return boolred(c * a + (Poly.c(1) - c) * b)
        return None

    def cond(self, n):
        """A Python condition as a 0/1 polynomial."""
        if n.k in ("list", "append", "phi"):
            t = self.truth_list(n)
            if t is not None:
                return t
        if n.k == "un" and n.a[0] in ("not", "~"):
            return Poly.c(1) - self.cond(n.a[1])
        if n.k == "bool":
            r = Poly.c(1)
            for x in n.a[1]:
                r = r * (self.cond(x) if n.a[0] == "and" else Poly.c(1) - self.cond(x))
            return boolred(r if n.a[0] == "and" else Poly.c(1) - r)
        if n.k == "op" and n.a[0] == "any" and len(n.a[1]) == 1:
            return self.any_(self.p(first_arg(n)))
        if n.k == "op" and n.a[0] == "all" and len(n.a[1]) == 1:
            return Poly.c(1) - self.any_(Poly.c(1) - self.p(first_arg(n)))
        if n.k == "op" and n.a[0] in ("item", "bool", "cpu", "to") and n.a[1]:
            return self.cond(first_arg(n))
        if n.k == "cmp":
            op, l, r = n.a
            # mask.sum() > 0, mask.sum() == 0, count_nonzero, numel of a selection
            for x, y, o in ((l, r, op), (r, l, {"<": "rlt", "<=": "rle"}.get(op, op))):
                z = num(y)
                m = self.count(x)
                if m is not None and z is not None:
                    a = self.any_(m)
                    if (o, z) in (("==", 0), ("<", 1), ("<=", 0)):
                        return Poly.c(1) - a
                    if (o, z) in (("!=", 0), ("rlt", 0), ("rle", 1)):
                        return a
            if op in ("<", "<=", "==", "!=") and not any(x.k == "const" and not isinstance(cval(x), (int, float)) for x in (l, r)):
                return self.p(n)
            if op in ("in", "not in") and r.k in ("list", "tuple") and 0 < len(r.a) < 9 and not any(x.k in ("star", "extend") for x in r.a):
                t = Poly.c(1)
                for x in r.a:
                    t = t * (Poly.c(1) - self.cond(N("cmp", "==", l, x)))
                return t if op == "not in" else Poly.c(1) - t
            if op in ("is not", "not in"):
                return Poly.c(1) - Poly.atom(N("cmp", op.replace("not ", "").replace(" not", ""), l, r))
            if op in ("is", "in"):
                return Poly.atom(n)
        return Poly.atom(N("boolatom", n))

    def count(self, x):
        x = peel(x)
        if x.k == "op" and x.a[0] in ("sum", "count_nonzero") and len(x.a[1]) == 1 and is_mask(peel(first_arg(x))):
            return self.p(first_arg(x))
        if x.k == "op" and x.a[0] == "numel" and first_arg(x).k == "sub" and is_mask(first_arg(x).a[1]):
            return self.p(first_arg(x).a[1])
        return None

    def extremum(self, f, ps):
        ks = sorted({pkey(p) for p in ps}, key=lambda x: x._id)
        if len(ks) == 1:
            return from_key(ks[0])
        return Poly.atom(N("op", f + "of", tuple(("x", x) for x in ks)))

    def clamp(self, x, lo, hi):
        """min(max(x, lo), hi): constants moved out, leading coefficient positive."""
        if not (lo.is_const() and hi.is_const()):
            return Poly.atom(N("op", "clamp", (("input", pkey(x)), ("min", pkey(lo)), ("max", pkey(hi)))))
        c = Poly.c(x.t.get((), 0))
        x, lo, hi, sg = x - c, lo - c, hi - c, 1
        if neg_lead(x):
            x, lo, hi, sg = -x, -hi, -lo, -1
        r = Poly.atom(N("op", "clamp", (("input", pkey(x)), ("min", pkey(lo)), ("max", pkey(hi)))))
        return c + (r if sg > 0 else -r)

    def clampmin(self, x, lo):
        if lo.is_const() and not x.is_const():
            c = Poly.c(x.t.get((), 0))
            if c.t:
                return c + self.clampmin(x - c, lo - c)
            if len(x.t) == 1:
                (k, v), = x.t.items()
                if v in (1, -1) and len(k) == 1 and k[0][1] == 1 and k[0][0].k == "op" and k[0][0].a[0] == "clampmin":
                    y, l0 = (from_key(z) for _, z in k[0][0].a[1])
                    if l0.is_const() and v == -1:        # -max(-max(y, l0), lo) is min(max(y, l0), -lo)
                        if value(l0) <= value(-lo):
                            return -self.clamp(y, l0, -lo)
        return Poly.atom(N("op", "clampmin", (("input", pkey(x)), ("min", pkey(lo)))))

    def column(self, n):
        c = super().column(n)
        return c

    def rows(self, m):
        """Row vectors r_c such that (v @ m)[c] = v . r_c, for m a transposed stack of rows."""
        m = peel(m)
        if m.k == "op" and m.a[0] == "transpose" and {num(v) for _, v in m.a[1][1:]} in ({1, 2}, {-1, -2}):
            s = peel(first_arg(m))
        elif m.k == "attr" and m.a[1] in ("mT", "T"):
            s = peel(m.a[0])
        else:
            if m.k == "op" and m.a[0] == "stack" and first_arg(m).k in ("list", "tuple") and num(arg(m, "dim")) in (-1, 2):
                return list(first_arg(m).a)
            return None
        if s.k == "op" and s.a[0] == "stack" and first_arg(s).k in ("list", "tuple") and num(arg(s, "dim")) in (1, -2):
            return list(first_arg(s).a)
        return None

    def width(self, n, d=0):
        """Number of explicit columns of the last axis if they are all known expressions."""
        n = peel(n, {"to", "clone", "contiguous", "float", "expand"}, subs_none=False)
        if d > 10 or self.scalarish(n):
            return None
        if n.k == "sub" and newaxis_only(n.a[1]):
            return self.width(n.a[0], d + 1)
        if n.k == "op" and n.a[0] == "stack" and self.is_last(arg(n, "dim")) and first_arg(n).k in ("list", "tuple"):
            return len(first_arg(n).a)
        if n.k == "update":
            sl, b = slots(n)
            ks = {kx for kx in sl}
            if all(len(kx) == 1 and isinstance(kx[0], int) for kx in ks) and ks == {(i,) for i in range(len(ks))} and b.k == "op" and b.a[0] in ("zeros", "empty"):
                return len(ks)
            return None
        if n.k == "op" and n.a[0] == "where" and len(n.a[1]) == 3:
            return self.width(arg(n, "input"), d + 1) or self.width(arg(n, "other"), d + 1)
        if n.k == "bin" and n.a[0] in ("+", "-", "*", "/"):
            return self.width(n.a[1], d + 1) or self.width(n.a[2], d + 1)
        if n.k == "bin" and n.a[0] == "@":
            r = self.rows(n.a[2])
            return None if r is None or d == 0 else None
        if n.k == "un" and n.a[0] == "-":
            return self.width(n.a[1], d + 1)
        if n.k == "cmp":
            return self.width(n.a[1], d + 1) or self.width(n.a[2], d + 1)
        return None

    def scalarish(self, n, d=0):
        """Broadcast over the last axis."""
        if n.k == "const" or n.k == "global":
            return True
        if n.k == "sub":
            ps = idx_parts(n.a[1])
            return is_const(ps[-1], None)
        if n.k == "op" and n.a[1]:
            if n.a[0] == "unsqueeze":
                return num(arg(n, "dim")) == -1
            if n.a[0] in ("sum", "norm", "mean", "amax", "amin", "max", "min"):
                return is_const(arg(n, "keepdim"), True)
            if n.a[0] in ("cos", "sin", "sqrt", "to", "clone", "abs", "exp", "clamp", "float", "tensor", "zeros_like", "ones_like"):
                return d < 8 and self.scalarish(first_arg(n), d + 1)
            if n.a[0] == "where":
                return d < 8 and all(self.scalarish(v, d + 1) for _, v in n.a[1])
        if n.k in ("bin", "cmp"):
            return d < 8 and self.scalarish(n.a[1], d + 1) and self.scalarish(n.a[2], d + 1)
        if n.k == "un":
            return d < 8 and self.scalarish(n.a[1], d + 1)
        return False

    def colp(self, n, i):
        """Column i of an arithmetic combination as a polynomial, or None."""
        if self.leaf is not None and self.leaf(n) is not None:
            return None
        if self.scalarish(n):
            return self.p(n)
        if n.k == "bin" and n.a[0] in ("+", "-", "*", "/"):
            l, r = self.colx(n.a[1], i), self.colx(n.a[2], i)
            return l + r if n.a[0] == "+" else l - r if n.a[0] == "-" else l * r if n.a[0] == "*" else self.div(l, r)
        if n.k == "un" and n.a[0] == "-":
            return -self.colx(n.a[1], i)
        if n.k == "un" and n.a[0] == "~":
            return Poly.c(1) - self.colx(n.a[1], i)
        if n.k == "cmp" and n.a[0] in ("<", "<="):
            l, r = self.colx(n.a[1], i), self.colx(n.a[2], i)
            return self.cmpz(l - r) if n.a[0] == "<" else Poly.c(1) - self.cmpz(r - l)
        if n.k == "bin" and n.a[0] == "&":
            return boolred(self.colx(n.a[1], i) * self.colx(n.a[2], i))
        if n.k == "op" and n.a[0] in ("zeros", "ones", "zeros_like", "ones_like", "full", "full_like"):
            return self.p(n)
        if n.k == "phi":
            c = self.cond(n.a[0])
            return boolred(c * self.colx(n.a[1], i) + (Poly.c(1) - c) * self.colx(n.a[2], i))
        if n.k == "op" and n.a[0] == "where" and len(n.a[1]) == 3:
            c = self.colx(arg(n, "condition"), i)
            return boolred(c * self.colx(arg(n, "input"), i) + (Poly.c(1) - c) * self.colx(arg(n, "other"), i))
        return None

    def colx(self, n, i):
        r = self.colp(n, i)
        if r is not None:
            return r
        r = self.mkcol(n, i)
        if self.leaf is not None:
            q = self.leaf(r)
            if q is not None:
                return q
        return unwrap(Poly.atom(r))

    def mkcol(self, base, i):
        base0 = peel(base, {"to", "clone", "contiguous", "float", "expand"}, subs_none=False)
        if base0.k in ("bin", "un", "phi", "cmp") or (base0.k == "op" and base0.a[0] == "where"):
            if not self.scalarish(base0):
                r = self.colp(base0, i)
                if r is not None:
                    return N("pwrap", pkey(r))
        b = peel(base, {"to", "clone", "contiguous", "float", "expand"}, subs_none=True)
        if b.k == "update":
            q = self.masked_col(b, i)
            if q is not None:
                return N("pwrap", pkey(q))
            sl, _ = slots(b)
            hit = [v for kx, v in sl.items() if kx == (i,)]
            if hit and all(len(kx) == 1 and isinstance(kx[0], int) for kx in sl):
                return N("pwrap", pkey(self.p(hit[0])))
        if b.k == "bin" and b.a[0] == "@":
            rows = self.rows(b.a[2])
            if rows is not None and 0 <= i < len(rows):
                return N("pwrap", pkey(self.S(self.p(b.a[1]) * self.p(rows[i]))))
        if b.k == "op" and b.a[0] == "stack" and self.is_last(arg(b, "dim")) and first_arg(b).k in ("list", "tuple"):
            xs = first_arg(b).a
            if -len(xs) <= i < len(xs):
                return N("pwrap", pkey(self.p(xs[i])))
        if b.k == "sub" and self.strip3:
            ps = [q for q in idx_parts(b.a[1]) if not is_const(q, None)]
            if ps and ps[-1].k == "slice" and num(ps[-1].a[1]) == 3 and is_const(ps[-1].a[0], None):
                if all(full_slice(q) or is_const(q, Ellipsis) for q in ps[:-1]) and len(ps) > 1:
                    return self.mkcol(b.a[0], i)
                if len(ps) == 2:
                    return self.mkcol(N("sub", b.a[0], ps[0]), i)
        return super().mkcol(base, i)

    def masked_col(self, b, i):
        """Column i of a buffer whose rows or row/column slots were stored under masks; None when no masks are involved."""
        chain, x = [], b
        seen = False
        while x.k == "update" or x.k == "phi":
            if x.k == "phi":
                # both branches of a guard around a store
                if not seen and not any(y.k == "update" and any(is_mask(z) for z in idx_parts(y.a[1])) for y in x.subs()):
                    return None
                c = self.cond(x.a[0])
                r = c * self.colx(x.a[1], i) + (Poly.c(1) - c) * self.colx(x.a[2], i)
                break
            ps = [z for z in idx_parts(x.a[1])]
            while len(ps) > 1 and full_slice(ps[-1]):
                ps = ps[:-1]
            masks = [z for z in ps if is_mask(z)]
            if len(ps) == 1 and masks:
                seen = True
                chain.append((self.p(ps[0]), x.a[2], ps[0], True))
            elif len(ps) == 2 and is_mask(ps[0]) and isinstance(num(ps[1]), int):
                seen = True
                if num(ps[1]) == i:
                    chain.append((self.p(ps[0]), x.a[2], ps[0], False))
            elif len(ps) == 2 and full_slice(ps[0]) and isinstance(num(ps[1]), int):
                if num(ps[1]) == i:
                    chain.append((Poly.c(1), x.a[2], None, False))
            else:
                return None
            x = x.a[0]
        else:
            r = None
        if not seen:
            return None
        if r is None:
            r = self.colx(x, i)
        for c, v, m, row in reversed(chain):
            if v.k == "sub" and v.a[1] is m:
                v = v.a[0]
            w = self.colx(v, i) if row and not self.scalarish(v) else self.p(v)
            r = boolred(c * w + (Poly.c(1) - c) * r)
        return r

    def _node(self, n):
        if n.k == "sub" and self.column(n) is None:
            i = n.a[1]
            return N("sub", self.argn(n.a[0]), self.nidx(i))
        return super()._node(n)

    def nidx(self, i):
        if i.k in ("tuple", "list"):
            return N(i.k, *[self.nidx(x) for x in i.a])
        if i.k == "slice":
            return N("slice", *[self.nidx(x) if isinstance(x, N) else x for x in i.a])
        if i.k == "const":
            return i
        return self.argn(i)


def unwrap(p):
    """pwrap atoms carry the polynomial of a stacked column."""
    for a in list(p.atoms()):
        if isinstance(a, N) and a.k == "pwrap":
            p = p.subst(a, from_key(a.a[0]))
    return p


# ---------------------------------------------------------------------------- case splitting over 0/1 atoms
def _bools_in(n):
    return {x for x in n.subs() if x.k in ("cmp", "boolatom", "anyatom")} if isinstance(n, N) else set()


def bool_atoms(p):
    out = set()
    for a in p.atoms():
        if isinstance(a, N):
            out |= {x for x in a.subs() if x.k in ("cmp", "boolatom", "anyatom") or is_bool_atom(x)}
    return out


def innermost(atoms):
    """The next atom to split on: aggregates over masks first (they do not depend on the element at hand), then atoms containing no other."""
    best = None
    agg = {a for a in atoms if a.k == "anyatom" or scalar_atom(a)}
    if agg:
        atoms = agg
    for a in sorted(atoms, key=lambda x: x._id):
        if a.k == "cmp" and len(a.a) != (2 if a.a[0] == "<" else 3):
            continue
        if not any(b is not a and b in atoms for b in a.subs()):
            rank = (a.k != "anyatom", a._id)
            if best is None or rank < best[0]:
                best = (rank, a)
    return best[1] if best else None


REDUCE = {"any", "all", "sum", "mean", "numel", "count_nonzero", "prod", "median"}


def scalar_atom(a, memo={}):
    """Same value for every element: built from sizes, flags, aggregates and plain Python scalars only."""
    r = memo.get(a)
    if r is None:
        r = memo[a] = a.k in ("cmp", "boolatom") and _scalar(a)
    return r


def _scalar(n):
    if n.k in ("anyatom", "const"):
        return True
    if n.k == "attr" and n.a[1] in ("shape", "dtype", "ndim", "device"):
        return True
    if n.k == "op" and (n.a[0] in ("len", "numel", "size", "isinstance", "isfinite") and n.a[0] != "isfinite" or
                        (n.a[0] in REDUCE and len(n.a[1]) == 1)):
        return True
    if n.k == "poly":
        return all(_scalar(x) if isinstance(x, N) else True for x in from_key(n).atoms())
    if n.k in ("cmp", "boolatom", "bool", "bin", "un", "inv", "pwrap", "sub", "col"):
        xs = [x for x in n.a if isinstance(x, N)]
        return bool(xs) and all(_scalar(x) for x in xs)
    return False


def assign(A, p, atom, val, memo=None):
    memo = {} if memo is None else memo
    out = Poly()
    for k, v in p.t.items():
        m = Poly.c(1) * Poly({(): v})
        for a, e in k:
            if isinstance(a, N) and atom in a.subs():
                q = assign_node(A, a, atom, val, memo)
            else:
                q = Poly.atom(a)
            if isinstance(e, int) and e >= 0:
                m = m * q.pow(e)
            else:
                m = A.div(m, q.pow(-e))
        out = out + m
    return boolred(out)


def assign_node(A, a, atom, val, memo):
    if a is atom:
        return Poly.c(val)
    r = memo.get(a)
    if r is not None:
        return r
    r = memo[a] = _assign_node(A, a, atom, val, memo)
    return r


def _assign_node(A, a, atom, val, memo):
    sub = lambda pk: assign(A, from_key(pk), atom, val, memo)
    if a.k == "poly":
        return sub(a)
    if a.k == "S":
        return A.S(sub(a.a[0]))
    if a.k == "inv":
        return A.div(Poly.c(1), sub(a.a[0]))
    if a.k == "pwrap":
        return sub(a.a[0])
    if a.k == "anyatom":
        return A.any_(sub(a.a[0])) if atom.k == "anyatom" or scalar_atom(atom) else Poly.atom(a)
    if a.k == "op" and a.a[0] in REDUCE and len(a.a[1]) == 1 and not (atom.k == "anyatom" or scalar_atom(atom)):
        return Poly.atom(a)
    if a.k == "cmp" and a.a[0] == "<" and len(a.a) == 2:
        return A.cmpz(sub(a.a[1]))
    if a.k == "cmp" and a.a[0] == "==":
        return A.eqz(sub(a.a[1]) - sub(a.a[2]))
    if a.k == "op" and a.a[0] in ("sqrt", "cross", "clampmin", "sin", "cos", "minof", "maxof") and all(v.k == "poly" for _, v in a.a[1]):
        d = [sub(v) for _, v in a.a[1]]
        if a.a[0] == "sqrt":
            return A.power(d[0], 0.5)
        if a.a[0] in ("minof", "maxof"):
            return A.extremum(a.a[0][:3], d)
        if a.a[0] == "cross":
            return A.cross(d[0], d[1])
        if a.a[0] == "clampmin":
            return A.clampmin(d[0], d[1])
        return A.trig(a.a[0], d[0])

    def rec(x):
        if isinstance(x, N):
            if atom not in x.subs():
                return x
            q = sub(x) if x.k == "poly" else assign_node(A, x, atom, val, memo)
            if x.k == "poly" and not hasattr(A, "ELEM"):
                return pkey(q)
            if len(q.t) == 1:
                (k, c), = q.t.items()
                if c == 1 and len(k) == 1 and k[0][1] == 1:
                    return k[0][0]
            return pkey(q)
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        return x
    if a.k == "op" and a.a[0] in ("isfinite", "isinf"):
        x = rec(a.a[1][0][1])
        if x.k == "inf" or (x.k == "poly" and from_key(x) == -Poly.atom(N("inf"))):
            return Poly.c(int(a.a[0] == "isinf"))
    return Poly.atom(N(a.k, *[rec(x) for x in a.a]))


def _AlgX_any(self, p):
    if p.is_const():
        return Poly.c(int(p.const() != 0))
    return Poly.atom(N("anyatom", pkey(p)))


def _AlgX_eqz(self, p):
    """Indicator of p == 0."""
    if p.is_const():
        return Poly.c(int(p.const() == 0))
    if len(p.t) == 1:
        (k, v), = p.t.items()
        if all(self.positive(a) for a, e in k):
            return Poly.c(0)
    if neg_lead(p):
        p = -p
    return Poly.atom(N("cmp", "==", pkey(p), pkey(Poly.c(0))))


AlgX.any_ = _AlgX_any
AlgX.eqz = _AlgX_eqz


def equiv(A, code, spec, limit=4096, values=None):
    """None if code == spec as element-wise expressions in every case of the 0/1 atoms, else (case, code value, spec value).
    A spec value mentioning the global DONTCARE matches everything."""
    pc = code if isinstance(code, Poly) else A.p(code)
    ps = spec if isinstance(spec, Poly) else A.p(spec)
    budget = [limit]

    def dontcare(p):
        return any(isinstance(a, N) and a.k == "global" and a.a[0].endswith("DONTCARE") for a in p.atoms())

    def rec(c, s, case, cons):
        if c == s:
            return None
        at = bool_atoms(c) | bool_atoms(s)
        for p in cons:
            at |= bool_atoms(p[0])
        if dontcare(s) and not bool_atoms(s):
            return None
        a = innermost(at)
        if a is None:
            for p, v in cons:
                if p.is_const() and int(p.const() != 0) != v:
                    return None
            if dontcare(s):
                return None
            return case, c, s
        budget[0] -= 1
        if budget[0] < 0:
            return case + ["budget"], c, s
        for v in (1, 0):
            cc = list(cons)
            if a.k == "anyatom":
                if v == 0:
                    cc.append((from_key(a.a[0]), 0))
            c2, s2 = assign(A, c, a, v), assign(A, s, a, v)
            r = rec(c2, s2, case + [(a, v)], [(assign(A, p, a, v), w) for p, w in cc])
            if r is not None:
                return r
        return None
    return rec(unwrap(pc), unwrap(ps), [], [])


CLASS_KEY = [None]     # set by loops: class number of a loop value -> what defines it


def innermost_diff(a, b, d=0):
    """Smallest pair of differing parts of two values."""
    if isinstance(a, Poly) or isinstance(b, Poly):
        ta, tb = dict(a.t), dict(b.t)
        ra = {k: v for k, v in ta.items() if tb.get(k) != v}
        rb = {k: v for k, v in tb.items() if ta.get(k) != v}
        if len(ra) == 1 and len(rb) == 1 and d < 60:
            (k1, v1), (k2, v2) = next(iter(ra.items())), next(iter(rb.items()))
            x = [q for q in k1 if q not in k2]
            y = [q for q in k2 if q not in k1]
            if v1 == v2 and len(x) == 1 and len(y) == 1 and x[0][1] == y[0][1]:
                return innermost_diff(x[0][0], y[0][0], d + 1)
        at = lambda t: {q for k in t for q, _ in k}
        xa, xb = at(ra) - at(tb), at(rb) - at(ta)
        if d < 60 and xa and xb:
            for x in sorted(xa, key=lambda z: z._id):
                for y in sorted(xb, key=lambda z: z._id):
                    if isinstance(x, N) and isinstance(y, N) and x.k == y.k and x.a[:1] == y.a[:1]:
                        return innermost_diff(x, y, d + 1)
        return Poly(ra), Poly(rb)
    if a is b or not (isinstance(a, N) and isinstance(b, N)) or d > 60:
        return a, b
    if a.k == "poly" and b.k == "poly":
        return innermost_diff(from_key(a), from_key(b), d + 1)
    if a.k == b.k and len(a.a) == len(b.a):
        def flat(t):
            for x in t:
                if isinstance(x, tuple):
                    yield from flat(x)
                else:
                    yield x
        ka, kb = a.a, b.a
        if a.k in ("lv", "mu") and CLASS_KEY[0]:
            ka, kb = CLASS_KEY[0](a.a[0]), CLASS_KEY[0](b.a[0])
        fa, fb = list(flat(ka)), list(flat(kb))
        if ka is not a.a and len(fa) == len(fb):
            # loop classes: the pair whose own difference is smallest and not merely another loop class
            bad = [(x, y) for x, y in zip(fa, fb) if x is not y and x != y and isinstance(x, N) and isinstance(y, N)]
            best = None
            for x, y in bad:
                r = innermost_diff(x, y, d + 1)
                w = (any(isinstance(z, N) and z.k in ("lv", "mu", "exit") for z in r), len(vshow(r[0])) + len(vshow(r[1])))
                if best is None or w < best[0]:
                    best = (w, r)
            return best[1] if best else (a, b)
        if len(fa) == len(fb):
            bad = [(x, y) for x, y in zip(fa, fb) if x is not y and x != y]
            if len(bad) == 1:
                return innermost_diff(*bad[0], d + 1)
            if bad and all(isinstance(x, N) and isinstance(y, N) for x, y in bad):
                return innermost_diff(*bad[0], d + 1)
    return a, b


def vshow(x):
    return pshow(x) if isinstance(x, Poly) else show(x)[:200] if isinstance(x, N) else repr(x)


def explain(r):
    case, c, s = r
    def short(a):
        try:
            return show(a)[:60]
        except Exception:
            return a.k
    x, y = innermost_diff(c, s)
    cs = [x for x in case if x != "budget"]
    return (f"code {vshow(x)} expected {vshow(y)}" +
            (" in case " + " & ".join(("" if v else "not ") + short(a) for a, v in cs) if cs else ""))


def pshow(p, n=160):
    try:
        return repr(p)[:n]
    except Exception:
        return "<poly of %d terms>" % len(p.t)


def item(n, i):
    """i-th element of a (conditionally chosen) tuple."""
    if n.k == "phi":
        return N("phi", n.a[0], item(n.a[1], i), item(n.a[2], i))
    if n.k in ("tuple", "list"):
        return n.a[i]
    return N("sub", n, const(i))

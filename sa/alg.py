"""Algebraic normal form of element-wise tensor expressions and of 4x4 homogeneous matrices built from value-flow nodes.

Everything is a Laurent polynomial over canonical atoms; atoms are columns of parameters, function applications whose
arguments are normalised the same way, and opaque values.  Two expressions that differ only by associativity,
commutativity, distribution, naming, temporaries, layout changes or torch spelling get one normal form."""
from __future__ import annotations

from fractions import Fraction

from .q import Poly, akey, peel, idx_parts, full_slice, trig_reduce, slots, LAYOUT
from .vf import N, arg, const, cval, first_arg, is_const, num

ELEMENTWISE = {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sqrt", "exp", "log", "abs", "clamp", "where", "deg2rad", "rad2deg",
               "maximum", "minimum", "softplus", "torch.nn.functional.softplus", "tanh", "sigmoid", "sinh", "cosh", "floor", "ceil", "round", "sign", "fmod", "%"}
DROP_KW = {"device", "dtype", "out", "memory_format", "non_blocking", "requires_grad"}
PI = ("torch.pi", "math.pi", "numpy.pi")


def pkey(p: Poly):
    return N("poly", tuple(sorted(((k, v) for k, v in p.t.items()), key=lambda kv: str([(akey(a), e) for a, e in kv[0]]))))


def from_key(n):
    return Poly(dict(n.a[0]))


def neg_lead(p: Poly):
    """Sign canonicalisation: is the first coefficient (in key order) negative?"""
    if not p.t:
        return False
    k = min(p.t, key=lambda kk: str([(akey(a), e) for a, e in kk]))
    return p.t[k] < 0


class Alg:
    """leaf(n) -> Poly | None replaces chosen nodes (e.g. a column) before normalisation."""

    def __init__(self, leaf=None, transforms="artist.geometry.transforms."):
        self.leaf = leaf
        self.memo = {}
        self.nmemo = {}
        self.mmemo = {}
        self.tf = transforms

    # ------------------------------------------------------------ scalars
    def p(self, n) -> Poly:
        r = self.memo.get(n)
        if r is None:
            r = self.memo[n] = self._p(n)
        return r

    def _p(self, n):
        if self.leaf is not None:
            r = self.leaf(n)
            if r is not None:
                return r
        k = n.k
        if k == "const":
            v = cval(n)
            if isinstance(v, bool):
                return Poly.c(int(v))
            if isinstance(v, (int, float)) and v == v and abs(v) != float("inf"):
                return Poly({(): Fraction(str(v))})
            return Poly.atom(n)
        if k == "loopout" and n.a[2].k == "undef":
            return self.p(n.a[3])
        if k == "global" and n.a[0] in PI:
            return Poly.atom(N("pi"))
        if k == "poly":
            return from_key(n)
        if k == "bin":
            op, l, r = n.a
            if op in ("+", "-", "*"):
                a, b = self.p(l), self.p(r)
                return a + b if op == "+" else a - b if op == "-" else a * b
            if op == "/":
                return self.div(self.p(l), self.p(r))
            if op == "**":
                e = num(r)
                if e is None:
                    q = self.p(r)
                    e = float(q.const()) if q.is_const() else None
                if e is not None:
                    return self.power(self.p(l), e)
            if op in ("&", "|"):
                a, b = self.p(l), self.p(r)
                if op == "&":
                    return a * b
                return a + b - a * b
            if op == "@":
                return Poly.atom(self.node(n))
        if k == "un":
            if n.a[0] == "-":
                return -self.p(n.a[1])
            if n.a[0] in ("~", "not"):
                return Poly.c(1) - self.p(n.a[1])
        if k == "cmp":
            op, l, r = n.a
            a, b = self.p(l), self.p(r)
            if a.is_const() and b.is_const() and op in ("==", "!=", "<", "<="):
                x, y = a.const(), b.const()
                return Poly.c(int({"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y}[op]))
            if op == "!=":
                return Poly.c(1) - Poly.atom(N("cmp", "==", *sorted((pkey(a), pkey(b)), key=lambda z: z._id)))
            if op == "==":
                return Poly.atom(N("cmp", "==", *sorted((pkey(a), pkey(b)), key=lambda z: z._id)))
            if op == "<=":
                return Poly.c(1) - Poly.atom(N("cmp", "<", pkey(b - a)))
            if op == "<":
                return Poly.atom(N("cmp", "<", pkey(a - b)))   # a-b < 0
        if k == "phi":
            c = self.p(n.a[0])
            if c.is_const():
                return self.p(n.a[1] if c.const() else n.a[2])
        if k == "op":
            nm = n.a[0]
            if nm == "where" and len(n.a[1]) == 3:
                c = self.p(arg(n, "condition"))
                if c.is_const():
                    return self.p(arg(n, "input") if c.const() else arg(n, "other"))
                x, y = self.p(arg(n, "input")), self.p(arg(n, "other"))
                if x == y:
                    return x
                return c * x + (Poly.c(1) - c) * y
            if nm == "pow" and len(n.a[1]) == 2:
                e = num(n.a[1][1][1])
                if e is not None:
                    return self.power(self.p(first_arg(n)), e)
            if nm == "sqrt":
                return self.power(self.p(first_arg(n)), 0.5)
            if nm == "rsqrt":
                return self.power(self.p(first_arg(n)), -0.5)
            if nm == "reciprocal":
                return self.div(Poly.c(1), self.p(first_arg(n)))
            if nm in ("ones_like", "ones"):
                return Poly.c(1)
            if nm in ("zeros_like", "zeros"):
                return Poly.c(0)
            if nm in ("full", "full_like"):
                return self.p(arg(n, "fill_value"))
            if nm in ("tensor", "scalar_tensor", "as_tensor", "float", "int") and n.a[1] and first_arg(n).k not in ("list", "tuple"):
                return self.p(first_arg(n))
            if nm in ("sin", "cos"):
                return self.trig(nm, self.p(first_arg(n)))
            if nm == "abs":
                a = self.p(first_arg(n))
                if neg_lead(a):
                    a = -a
                if a.is_const():
                    return a
                return Poly.atom(N("op", "abs", (("input", pkey(a)),)))
            if nm == "atan2":
                y, x = self.p(n.a[1][0][1]), self.p(n.a[1][1][1])
                w = self.same_angle(y, x)
                if w is not None:
                    return w
                return Poly.atom(N("op", "atan2", (("input", pkey(y)), ("other", pkey(x)))))
            if nm in ("addcmul",):
                a = [self.p(v) for _, v in n.a[1][:3]]
                return a[0] + a[1] * a[2]
        c = self.column(n)
        if c is not None:
            if self.leaf is not None and c is not n:
                r = self.leaf(c)
                if r is not None:
                    return r
            return Poly.atom(c)
        q = peel(n)
        if q is not n:
            return self.p(q)
        return Poly.atom(self.node(n))

    def same_angle(self, y, x):
        """atan2(sin a, cos a): the angle a wrapped; same rotation, so the wrap node keeps only a."""
        def single(p, f):
            if len(p.t) == 1:
                (k, v), = p.t.items()
                if len(k) == 1 and k[0][1] == 1 and k[0][0].k == "op" and k[0][0].a[0] == f and v in (1, -1):
                    return from_key(k[0][0].a[1][0][1]), v
            return None
        s, c = single(y, "sin"), single(x, "cos")
        if s and c and s[0] == c[0] and c[1] == 1:
            return Poly.atom(N("op", "wrap", (("input", pkey(s[0] if s[1] == 1 else -s[0])),)))
        return None

    def trig(self, f, a: Poly):
        # sin/cos of a wrapped angle are those of the angle
        if len(a.t) == 1:
            (k, v), = a.t.items()
            if len(k) == 1 and k[0][1] == 1 and k[0][0].k == "op" and k[0][0].a[0] == "wrap" and v in (1, -1):
                b = from_key(k[0][0].a[1][0][1])
                a = b if v == 1 else -b
        if not a.t:
            return Poly.c(0 if f == "sin" else 1)
        sg = 1
        if neg_lead(a):
            a = -a
            sg = -1 if f == "sin" else 1
        r = Poly.atom(N("op", f, (("input", pkey(a)),)))
        return -r if sg < 0 else r

    def div(self, a, b):
        i = b.inv()
        if i is not None:
            return a * i
        # canonical sign for inverses of sums
        if neg_lead(b):
            return -(a * Poly.atom(N("inv", pkey(-b))))
        return a * Poly.atom(N("inv", pkey(b)))

    def power(self, b, e):
        if isinstance(e, float) and e == int(e):
            e = int(e)
        if isinstance(e, int):
            if e >= 0:
                return b.pow(e)
            return self.div(Poly.c(1), b.pow(-e))
        if e in (0.5, -0.5):
            r = Poly.atom(N("op", "sqrt", (("input", pkey(b)),)))
            return r if e > 0 else self.div(Poly.c(1), r)
        f = Fraction(str(e))
        if f.denominator == 2 and f > 0:
            return b.pow(int(f - Fraction(1, 2))) * self.power(b, 0.5)
        return Poly.atom(N("op", "pow", (("0", pkey(b)), ("1", const(e)))))

    def column(self, n):
        """Canonical N('col', base, c) for one constant column of the last (or trailing) axis."""
        if n.k == "col":
            return n
        if n.k == "sub":
            ps = [q for q in idx_parts(n.a[1]) if not is_const(q, None) and not is_const(q, Ellipsis)]
            base = n.a[0]
            if base.k == "op" and base.a[0] in ("unbind", "split", "chunk") and isinstance(num(n.a[1]), int):
                b = first_arg(base)
                d = arg(base, "dim")
                if base.a[0] == "unbind" and num(d) in (1, -1):
                    return self.mkcol(b, num(n.a[1]))
                return None
            if base.k == "attr" and base.a[1] in ("T", "mT") and ps and isinstance(num(ps[0]), int) and all(full_slice(q) for q in ps[1:]):
                return self.mkcol(base.a[0], num(ps[0]))
            if not ps:
                return None
            if len(ps) == 1 and len(idx_parts(n.a[1])) == 1:
                i = num(ps[0])
                return self.mkcol(base, i) if isinstance(i, int) and not isinstance(i, bool) else None
            while len(ps) > 1 and full_slice(ps[-1]):
                ps = ps[:-1]
            if len(ps) == 1 and len(idx_parts(n.a[1])) > 1 and not is_const(idx_parts(n.a[1])[0], Ellipsis):
                return None         # x[i, :]: an element of the first axis
            if all(full_slice(q) for q in ps[:-1]) and isinstance(num(ps[-1]), int):
                return self.mkcol(base, num(ps[-1]))
        if n.k == "op" and n.a[0] == "select" and len(n.a[1]) == 3:
            i = num(n.a[1][2][1])
            if isinstance(i, int):
                return self.mkcol(n.a[1][0][1], i)
        return None

    def mkcol(self, base, i):
        """Column i of base, looking through constant column slices and layout changes and stored columns."""
        b = peel(base, {"to", "clone", "contiguous", "float", "cast", "typing.cast", "expand"}, subs_none=False)
        if b.k == "sub":
            ps = [q for q in idx_parts(b.a[1]) if not is_const(q, Ellipsis)]
            if ps and ps[-1].k == "slice" and all(full_slice(q) for q in ps[:-1]) and len(ps) > 1 and is_const(ps[-1].a[2], None):
                lo = num(ps[-1].a[0]) if not is_const(ps[-1].a[0], None) else 0
                if isinstance(lo, int) and lo >= 0 and i >= 0:
                    return self.mkcol(b.a[0], lo + i)
            if ps and ps[-1].k == "list" and all(full_slice(q) for q in ps[:-1]) and len(ps) > 1 and 0 <= i < len(ps[-1].a):
                j = num(ps[-1].a[i])
                if isinstance(j, int):
                    return self.mkcol(b.a[0], j)
        return N("col", self.node(b), i)

    def node(self, n):
        """Canonical node: arithmetic arguments normalised, device/dtype arguments dropped."""
        r = self.nmemo.get(n)
        if r is None:
            self.nmemo[n] = n
            r = self.nmemo[n] = self._node(n)
        return r

    def _node(self, n):
        if n.k == "col":
            return n
        if n.k == "op":
            out = []
            for k, v in n.a[1]:
                if k in DROP_KW:
                    continue
                out.append((k, self.argn(v)))
            return N("op", n.a[0], tuple(out))
        if n.k == "rcall":
            return N("rcall", n.a[0], tuple((k, self.argn(v)) for k, v in n.a[1] if k not in DROP_KW))
        if n.k == "sub":
            c = self.column(n)
            if c is not None:
                return c
            return N("sub", self.argn(n.a[0]), n.a[1])
        if n.k == "attr":
            return N("attr", self.argn(n.a[0]), n.a[1])
        if n.k == "bin" and n.a[0] == "@":
            return N("bin", "@", self.argn(n.a[1]), self.argn(n.a[2]))
        if n.k == "phi":
            return N("phi", self.argn(n.a[0]), self.argn(n.a[1]), self.argn(n.a[2]))
        return n

    def argn(self, v):
        if v.k in ("tuple", "list"):
            return N(v.k, *[self.argn(x) for x in v.a])
        if v.k in ("bin", "un", "cmp", "phi", "op", "rcall", "sub", "attr", "col"):
            p = self.p(v)
            if len(p.t) == 1:
                (k, c), = p.t.items()
                if c == 1 and len(k) == 1 and k[0][1] == 1:
                    return k[0][0]
            return pkey(p)
        return v

    # ------------------------------------------------------------ 4x4 matrices
    def m(self, n):
        r = self.mmemo.get(n)
        if r is None:
            r = self.mmemo[n] = self._m(n)
        return r

    def _m(self, n):
        n = peel(n, LAYOUT)
        while n.k == "loopout" and n.a[2].k == "undef":   # value of the last iteration
            n = peel(n.a[3], LAYOUT)
        t = None
        if n.k == "op" and n.a[0] == "transpose":
            d = {num(v) for q, v in n.a[1] if q != "input"}
            if d in ({1, 2}, {-1, -2}, {2, 3}):
                t = first_arg(n)
        if n.k == "attr" and n.a[1] == "mT":
            t = n.a[0]
        if t is not None:
            x = self.m(t)
            return [[x[j][i] for j in range(4)] for i in range(4)]
        if n.k == "bin" and n.a[0] == "@":
            a, b = self.m(n.a[1]), self.m(n.a[2])
            return mmul(a, b)
        if n.k == "op" and n.a[0] == "eye":
            return ident()
        if n.k == "rcall" and n.a[0].startswith(self.tf):
            f = n.a[0][len(self.tf):]
            if f in ("rotate_e", "rotate_n", "rotate_u"):
                return self.rot(f[-1], self.p(arg(n, f[-1])))
            if f == "translate_enu":
                return trans(*(self.p(arg(n, c)) for c in "enu"))
        if n.k == "op" and n.a[0] == "torch.linalg.inv":
            x = first_arg(n)
        if n.k == "update":
            sl, base = slots(n)
            bp = None
            if base.k == "op" and base.a[0] in ("zeros", "new_zeros", "zeros_like"):
                bp = [[Poly() for _ in range(4)] for _ in range(4)]
            elif base.k == "op" and base.a[0] == "eye" or (base.k == "op" and base.a[0] in ("repeat", "expand", "clone") and any(x.k == "op" and x.a[0] == "eye" for x in base.subs())):
                bp = ident()
            if bp is not None:
                ok = True
                for key, v in sl.items():
                    if len(key) == 2 and all(isinstance(x, int) for x in key):
                        bp[key[0]][key[1]] = self.p(v)
                    elif len(key) == 2 and key[0] == ("slice", None, 3, None) and isinstance(key[1], int):
                        for i in range(3):
                            bp[i][key[1]] = Poly.atom(N("comp3", self.node(v), i))
                    else:
                        ok = False
                if ok:
                    return bp
        base = self.node(n)
        return [[Poly.atom(N("ent", base, i, j)) for j in range(4)] for i in range(4)]

    def rot(self, ax, a: Poly):
        c, s = self.trig("cos", a), self.trig("sin", a)
        m = ident()
        i, j = {"e": (1, 2), "n": (0, 2), "u": (0, 1)}[ax]
        m[i][i] = c
        m[i][j] = -s
        m[j][i] = s
        m[j][j] = c
        return m


def ident():
    return [[Poly.c(1 if i == j else 0) for j in range(4)] for i in range(4)]


def trans(e, n, u):
    m = ident()
    m[0][3], m[1][3], m[2][3] = e, n, u
    return m


def mmul(a, b):
    out = []
    for i in range(4):
        row = []
        for j in range(4):
            s = Poly()
            for k in range(4):
                if a[i][k].t and b[k][j].t:
                    s = s + a[i][k] * b[k][j]
            row.append(s)
        out.append(row)
    return out


def meq(a, b):
    """First differing entry, or None when equal modulo sin^2+cos^2=1."""
    for i in range(4):
        for j in range(4):
            if trig_reduce2(a[i][j] - b[i][j]).t:
                return (i, j)
    return None


def trig_reduce2(p):
    return trig_reduce(p)

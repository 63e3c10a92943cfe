"""Queries over value-flow graphs: peeling, provenance, algebraic normal forms, event order."""
from __future__ import annotations

from fractions import Fraction

from .vf import N, Graph, arg, callee, callee_is, const, cval, first_arg, is_const, num, show, mk_un

# ops that keep the (element-wise) value
TRANSPARENT = {"to", "clone", "contiguous", "float", "double", "int", "long", "cpu", "cuda", "requires_grad_", "type", "typing.cast", "cast",
               "view", "reshape", "unsqueeze", "squeeze", "expand", "flatten", "expand_as", "view_as", "as_tensor", "broadcast_to",
               "torch.nn.parameter.Parameter", "torch.nn.Parameter", "nan_to_num", "bool", "round", "ravel"}
LAYOUT = {"view", "reshape", "unsqueeze", "squeeze", "expand", "flatten", "expand_as", "view_as", "broadcast_to", "contiguous", "clone", "to", "ravel"}


def peel(n, ops=TRANSPARENT, subs_none=True):
    """Strip value-preserving wrappers (dtype/device/layout changes, x[None], x[:, None], x[..., None])."""
    while True:
        if n.k == "op" and n.a[0] in ops and n.a[1]:
            if n.a[0] in ("typing.cast", "cast") and len(n.a[1]) > 1:
                n = n.a[1][1][1]
            else:
                n = first_arg(n)
            continue
        if subs_none and n.k == "sub" and newaxis_only(n.a[1]):
            n = n.a[0]
            continue
        return n


def newaxis_only(i):
    """Index made only of ':', '...' and None."""
    parts = i.a if i.k == "tuple" else (i,)
    ok = False
    for p in parts:
        if is_const(p, None):
            ok = True
        elif p.k == "slice" and all(is_const(x, None) for x in p.a):
            pass
        elif is_const(p, Ellipsis):
            pass
        else:
            return False
    return ok or all(not is_const(p, None) for p in parts)


def idx_parts(i):
    return list(i.a) if i.k == "tuple" else [i]


def full_slice(p):
    return p.k == "slice" and all(is_const(x, None) for x in p.a)


def column(n):
    """(base, last index) for x[:, c] / x[..., c] / x[c]-style reads; index is a node."""
    if n.k == "sub":
        ps = [p for p in idx_parts(n.a[1]) if not is_const(p, None)]
        if ps and all(full_slice(p) or is_const(p, Ellipsis) for p in ps[:-1]) and not full_slice(ps[-1]):
            return n.a[0], ps[-1]
    if n.k == "op" and n.a[0] in ("select", "index_select") and len(n.a[1]) == 3:
        return n.a[1][0][1], n.a[1][2][1]
    return None, None


def deps(n):
    return n.subs()


def mentions(n, pred):
    return any(pred(x) for x in n.subs())


def attrs_read(n, name=None):
    return [x for x in n.subs() if x.k == "attr" and (name is None or x.a[1] == name)]


def has_attr(n, *names):
    return any(x.k == "attr" and x.a[1] in names for x in n.subs())


def params_read(n):
    return {x.a[1] for x in n.subs() if x.k == "param"}


def calls_in(n, *names):
    return [x for x in n.subs() if x.k in ("rcall", "op") and callee_is(x, *names)]


def phi_leaves(n):
    """All alternatives of a gated value."""
    out, todo, seen = [], [n], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "phi":
            todo += [x.a[2], x.a[1]]
        elif x.k == "loopout":
            todo += [x.a[3], x.a[2]]
        else:
            out.append(x)
    return out


def leaves_where(n, conds=()):
    """[(conds, leaf)] over phi structure."""
    if n.k == "phi":
        return leaves_where(n.a[1], conds + ((n.a[0], True),)) + leaves_where(n.a[2], conds + ((n.a[0], False),))
    return [(conds, n)]


def chain(n, op="@"):
    """Flatten a left/right nested product of op into its factor list (order kept)."""
    if n.k == "bin" and n.a[0] == op:
        return chain(n.a[1], op) + chain(n.a[2], op)
    return [n]


def sumterms(n, sign=1):
    if n.k == "bin" and n.a[0] == "+":
        return sumterms(n.a[1], sign) + sumterms(n.a[2], sign)
    if n.k == "bin" and n.a[0] == "-":
        return sumterms(n.a[1], sign) + sumterms(n.a[2], -sign)
    if n.k == "un" and n.a[0] == "-":
        return sumterms(n.a[1], -sign)
    return [(sign, n)]


def factors(n):
    if n.k == "bin" and n.a[0] == "*":
        return factors(n.a[1]) + factors(n.a[2])
    return [n]


def conjuncts(n):
    """Elementwise mask conjunction."""
    if n.k == "bin" and n.a[0] == "&":
        return conjuncts(n.a[1]) + conjuncts(n.a[2])
    if n.k == "bool" and n.a[0] == "and":
        out = []
        for x in n.a[1]:
            out += conjuncts(x)
        return out
    return [n]


# ---------------------------------------------------------------------------- Laurent polynomials over atoms
class Poly:
    """Sum of coeff * prod(atom**int).  A normal form for +,-,*,/ by monomials and integer powers."""
    __slots__ = ("t",)

    def __init__(self, t=None):
        self.t = {k: v for k, v in (t or {}).items() if v != 0}

    @staticmethod
    def c(v):
        return Poly({(): Fraction(v).limit_denominator(10 ** 12)})

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): Fraction(1)})

    def __add__(self, o):
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + v
        return Poly(t)

    def __neg__(self):
        return Poly({k: -v for k, v in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        t = {}
        for k1, v1 in self.t.items():
            for k2, v2 in o.t.items():
                d = dict(k1)
                for a, e in k2:
                    d[a] = d.get(a, 0) + e
                k = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: (akey(x[0]), x[1])))
                t[k] = t.get(k, 0) + v1 * v2
        return Poly(t)

    def inv(self):
        if len(self.t) == 1:
            (k, v), = self.t.items()
            return Poly({tuple((a, -e) for a, e in k): 1 / v})
        return None

    def pow(self, n):
        r = Poly.c(1)
        for _ in range(n):
            r = r * self
        return r

    def __eq__(self, o):
        return self.t == o.t

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def is_const(self):
        return all(k == () for k in self.t)

    def const(self):
        return self.t.get((), Fraction(0))

    def atoms(self):
        return {a for k in self.t for a, _ in k}

    def subst(self, atom, p):
        """Replace atom by polynomial p (non-negative powers only, or p monomial)."""
        out = Poly()
        for k, v in self.t.items():
            m = Poly({tuple((a, e) for a, e in k if a != atom): v})
            e = dict(k).get(atom, 0)
            if e > 0:
                m = m * p.pow(e)
            elif e < 0:
                i = p.inv()
                if i is None:
                    return None
                m = m * i.pow(-e)
            out = out + m
        return out

    def __repr__(self):
        def f(k, v):
            s = "*".join((show(a) if isinstance(a, N) else str(a)) + (f"^{e}" if e != 1 else "") for a, e in k)
            return f"{v}" if not s else (s if v == 1 else f"{v}*{s}")
        return " + ".join(f(k, v) for k, v in self.t.items()) or "0"


def akey(a):
    return (0, a._id) if isinstance(a, N) else (1, str(a))


def poly(n, atomize=None, peel_ops=True):
    """Normal form of a scalar/element-wise expression.  atomize(node) may return a replacement Poly."""
    if atomize is not None:
        r = atomize(n)
        if r is not None:
            return r
    if n.k == "const" and isinstance(cval(n), (int, float)) and not isinstance(cval(n), bool):
        return Poly.c(cval(n))
    if n.k == "bin":
        op, l, r = n.a
        if op in "+-*":
            a, b = poly(l, atomize), poly(r, atomize)
            return a + b if op == "+" else a - b if op == "-" else a * b
        if op == "/":
            a, b = poly(l, atomize), poly(r, atomize)
            i = b.inv()
            if i is not None:
                return a * i
            return a * Poly.atom(N("inv", _canon_poly_node(b, r)))
        if op == "**":
            e = num(r)
            if isinstance(e, int) or (isinstance(e, float) and e == int(e)):
                b = poly(l, atomize)
                if e >= 0:
                    return b.pow(int(e))
                i = b.inv()
                if i is not None:
                    return i.pow(int(-e))
    if n.k == "un" and n.a[0] == "-":
        return -poly(n.a[1], atomize)
    p = peel(n)
    if p is not n:
        return poly(p, atomize)
    if n.k == "op" and n.a[0] in ("ones_like", "ones"):
        return Poly.c(1)
    if n.k == "op" and n.a[0] in ("zeros_like", "zeros"):
        return Poly.c(0)
    if n.k == "op" and n.a[0] in ("tensor", "scalar_tensor") and n.a[1] and num(n.a[1][0][1]) is not None:
        return Poly.c(num(n.a[1][0][1]))
    return Poly.atom(n)


def _canon_poly_node(p, n):
    return n


def trig_reduce(p: Poly):
    """Replace sin(x)^2 by 1-cos(x)^2 until none is left."""
    changed = True
    while changed:
        changed = False
        for k, v in list(p.t.items()):
            for a, e in k:
                if isinstance(a, N) and a.k == "op" and a.a[0] == "sin" and e >= 2:
                    c = N("op", "cos", a.a[1])
                    rest = Poly({tuple((x, y if x is not a else y - 2) for x, y in k if not (x is a and y == 2)): v})
                    p = p - Poly({k: v}) + rest * (Poly.c(1) - Poly.atom(c).pow(2))
                    changed = True
                    break
            if changed:
                break
    return p


# ---------------------------------------------------------------------------- slots of matrices built by item stores
def slots(n):
    """Final content of a buffer built by stores: ({index tuple of consts (trailing)}: value, base)."""
    out = {}
    order = []
    while n.k == "update":
        order.append((n.a[1], n.a[2]))
        n = n.a[0]
    for i, v in reversed(order):
        parts = idx_parts(i)
        tail = []
        for p in reversed(parts):
            if p.k == "const" and isinstance(cval(p), int) and not isinstance(cval(p), bool):
                tail.append(cval(p))
            elif p.k == "slice" and not full_slice(p):
                tail.append(("slice",) + tuple(cval(x) for x in p.a))
            elif p.k == "list":
                tail.append(tuple(cval(x) for x in p.a))
            elif full_slice(p) or is_const(p, Ellipsis):
                break
            else:
                tail.append(p)
        out[tuple(reversed(tail))] = v
    return out, n


# ---------------------------------------------------------------------------- events
def loops(e):
    return tuple(c[1] for c in e.ctx if c[0] == "loop")


def pcs(e):
    return {(c, p) for c, p, _ in e.pc}


def no_grad(e):
    return any(c[0] == "with" and callee_is(c[1], "no_grad", "inference_mode") for c in e.ctx)


def dominates(a, b):
    """Event a happens before b whenever b happens (same iteration of the loops a is in)."""
    return a.i < b.i and pcs(a) <= pcs(b) and loops(b)[: len(loops(a))] == loops(a) and \
        not any(c[0] == "except" for c in a.ctx if c not in b.ctx)


def pc_atoms(e, tags=None):
    return [(c, p) for c, p, t in e.pc if tags is None or t in tags]


def local_name(q):
    return q.rpartition(".")[2]

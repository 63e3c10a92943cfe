"""Algebra of the actuator models: the angle formula and the motor-position formula are reduced to polynomial normal forms
for both movement directions and compared with the linear-actuator geometry (stroke = position/increment + initial stroke, law
of cosines, sign by movement direction) and its algebraic inverse; geometric parameters pass through a strictly positive map;
both directions use the same stroke limits; the ideal actuator is the identity both ways."""
from ..q import *
from ..alg import Alg, pkey, from_key
from ..vf import analyse, N
from ..repo import AnalysisError

BASE = "artist.field.actuators.Actuators"
LIN = "artist.field.actuators_linear.LinearActuators"
IDEAL = "artist.field.actuators_ideal.IdealActuators"
NON, OPT = "active_non_optimizable_parameters", "active_optimizable_parameters"


class Model(Alg):
    def __init__(self, repo, cls, qual, cw, consts):
        super().__init__(self.leaf_)
        self.qual, self.cw, self.consts = qual, cw, consts
        self.clamps = []
        self.floors = []
        self.noninc = set()

    def leaf_(self, n):
        if n.k == "attr" and n.a[0].k == "param" and n.a[0].a[1] == "self" and n.a[1] in self.consts:
            return Poly.c(self.consts[n.a[1]])
        if n.k == "param" and n.a[1] in ("motor_positions", "angles"):
            return Poly.atom(N("in"))
        c = n if n.k == "col" else self.column(n)
        if c is not None and c.a[0].k == "attr" and c.a[0].a[1] in (NON, OPT):
            nm, i = c.a[0].a[1], c.a[1]
            if nm == NON and i == 1:
                return Poly.c(self.cw)
            return Poly.atom(N("raw", nm, i))
        lim = limited(n)
        if lim is not None:
            x, lo, hi = lim
            x = self.p(x)
            self.clamps.append((x, self.p(lo) if lo is not None else None, self.p(hi) if hi is not None else None, n))
            return x
        if n.k == "op" and n.a[0].endswith("softplus"):
            x = self.p(first_arg(n))
            at = list(x.atoms())
            if len(at) == 1 and at[0].k == "raw" and x == Poly.atom(at[0]):
                return Poly.atom(N("sp", at[0].a[0], at[0].a[1]))
        if n.k == "op" and n.a[0] == "acos":
            return Poly.atom(N("acos", pkey(self.p(first_arg(n)))))
        return None


def limited(n):
    """(value, lower, upper) of a clamp, or of nested minimum and maximum around the value that depends on the motor position or angle."""
    if n.k != "op":
        return None
    if n.a[0] == "clamp":
        return arg(n, "input"), arg(n, "min"), arg(n, "max")
    live = lambda x: any(y.k == "param" and y.a[1] in ("motor_positions", "angles") for y in x.subs())

    def split(m):
        if m.k == "op" and m.a[0] in ("minimum", "maximum") and len(m.a[1]) == 2:
            a, b = (v for _, v in m.a[1])
            if live(a) != live(b):
                return (a, b) if live(a) else (b, a)
        return None
    outer = split(n)
    inner = outer and split(outer[0])
    if inner and outer[0].a[0] != n.a[0]:
        return (inner[0], inner[1], outer[1]) if n.a[0] == "minimum" else (inner[0], outer[1], inner[1])
    return None


def class_consts(repo, cls):
    out = {}
    for c in repo.classes[cls].mro if hasattr(repo.classes[cls], "mro") else [cls]:
        pass
    g = analyse(repo, cls + ".__init__", class_of_self=cls)
    for (loc, a), v in g.final.heap.items():
        if num(v) is not None:
            out[a] = num(v)
    return out


def check(repo, R):
    R.rule("A04.forward", "joint angle = initial angle +/- (angle at zero stroke increment - angle at stroke), law of cosines on positive geometry")
    R.rule("A04.inverse", "motor position = (stroke(angle) - initial stroke) * increment, the algebraic inverse of the forward formula")
    R.rule("A04.limits", "stroke lengths are limited to the same feasible interval in both directions")
    R.rule("A04.domain", "arguments of arccos stay strictly inside [-1, 1]; cosines are limited at most to that interval")
    R.rule("A04.positive", "increment, offset, pivot radius and initial stroke enter only through a strictly positive map")
    R.rule("A04.identity", "ideal actuators map motor positions to angles and back by identity")
    for c in (LIN, IDEAL):
        if c not in repo.classes:
            raise AnalysisError(f"anchor vanished: {c}")
    consts = class_consts(repo, LIN)
    strokes = {}
    for cw in (1, 0):
        sg = 1 if cw else -1
        # forward
        q = LIN + ".motor_positions_to_angles"
        f = repo.func(q)
        g = analyse(repo, q, class_of_self=LIN)
        R.analysed(q)
        where = f"{f.file}:{f.line}"
        M = Model(repo, LIN, q, cw, consts)
        got = M.p(g.ret())
        sp = spec_atoms(got, M)
        for k, v in sp["e"].items():
            R.ob("A04.positive", f"forward.{k}.cw{cw}", v is not None and v > 0, where, f"parameter {k} is not mapped to a strictly positive value (floor {v})")
        o, p_, L0, inc, a0 = sp["off"], sp["piv"], sp["L0"], sp["inc"], Poly.atom(N("raw", OPT, 0))

        def absolute(mp):
            s = M.div(mp, inc) + L0
            return Poly.atom(N("acos", pkey(M.div(o * o + p_ * p_ - s * s, Poly.c(2) * o * p_)))), s
        ab0, s0 = absolute(Poly())
        abm, sm = absolute(Poly.atom(N("in")))
        spec = a0 + Poly.c(sg) * (ab0 - abm)
        R.ob("A04.forward", f"cw{cw}", got == spec, where, f"angle formula is {str(got)[:400]}, expected {str(spec)[:400]}")
        lims = {}
        for x, lo, hi, n in M.clamps:
            if x == sm or x == s0:
                lims[x] = (lo, hi)
            elif lo is not None and hi is not None and lo.is_const() and hi.is_const():
                ok = -1 < lo.const() <= -0.99 and 0.99 <= hi.const() < 1
                R.ob("A04.domain", f"forward.{cw}", ok, where, f"arccos argument limited to [{lo}, {hi}]")
        fl = lims.get(sm)
        ok = feasible(M, fl, o, p_)
        R.ob("A04.limits", f"forward.cw{cw}", ok and lims.get(s0) == fl, where, f"stroke lengths not limited to the feasible interval: {fl}")
        # inverse
        q2 = LIN + ".angles_to_motor_positions"
        f2 = repo.func(q2)
        g2 = analyse(repo, q2, class_of_self=LIN)
        R.analysed(q2)
        w2 = f"{f2.file}:{f2.line}"
        M2 = Model(repo, LIN, q2, cw, consts)
        got2 = M2.p(g2.ret())
        sp2 = spec_atoms(got2, M2)
        for k, v in sp2["e"].items():
            R.ob("A04.positive", f"inverse.{k}.cw{cw}", v is not None and v > 0, w2, f"parameter {k} is not mapped to a strictly positive value")
        o, p_, L0, inc = sp2["off"], sp2["piv"], sp2["L0"], sp2["inc"]
        s = L0
        ab0i = Poly.atom(N("acos", pkey(M2.div(o * o + p_ * p_ - s * s, Poly.c(2) * o * p_))))
        delta = Poly.c(sg) * (Poly.atom(N("in")) - a0)
        cosv = M2.trig("cos", ab0i - delta)
        stroke = M2.power(o * o + p_ * p_ - Poly.c(2) * o * p_ * cosv, 0.5)
        spec2 = (stroke - L0) * inc
        R.ob("A04.inverse", f"cw{cw}", got2 == spec2 and sp["e"] == sp2["e"], w2, f"motor position formula is {str(got2)[:400]}, expected {str(spec2)[:400]}")
        il = [(lo, hi) for x, lo, hi, n in M2.clamps if x == stroke]
        R.ob("A04.limits", f"inverse.cw{cw}", len(il) >= 1 and all(x == fl for x in il), w2, f"stroke limits of the inverse {il} differ from the forward ones {fl}")
        for x, lo, hi, n in M2.clamps:
            if x == cosv or x == M2.div(o * o + p_ * p_ - s * s, Poly.c(2) * o * p_):
                ok = lo is not None and hi is not None and lo.is_const() and hi.is_const() and -1 <= lo.const() <= -0.99 and 0.99 <= hi.const() <= 1
                R.ob("A04.domain", f"inverse.{cw}", ok, w2, f"cosine limited to [{lo}, {hi}]")
            elif x != stroke and x != s:
                R.ob("A04.domain", f"inverse.other.{cw}", False, w2, f"unexpected limitation of {str(x)[:120]}")
        for x, lo, hi, n in M.clamps:
            known = (x == sm or x == s0 or (lo is not None and lo.is_const()))
            if not known:
                R.ob("A04.domain", f"forward.other.{cw}", False, where, f"unexpected limitation of {str(x)[:120]}")
    for c, out in ((IDEAL, "motor_positions"), (IDEAL, "angles")):
        q = c + (".motor_positions_to_angles" if out == "motor_positions" else ".angles_to_motor_positions")
        f = repo.func(q)
        g = analyse(repo, q, class_of_self=c)
        R.analysed(q)
        R.ob("A04.identity", q, peel(g.ret(), {"to", "clone", "contiguous"}) is N("param", q, out), f"{f.file}:{f.line}", f"returns {show(g.ret())}")
    R.floor("A04.forward", 2)
    R.floor("A04.inverse", 2)
    R.floor("A04.domain", 4)


def feasible(M, lim, o, p_):
    """[|o-p| + e, o + p - e] with e > 0"""
    if not lim or lim[0] is None or lim[1] is None:
        return False
    d = M.p(N("op", "abs", (("input", pkey(o - p_)),)))
    a, b = lim[0] - d, o + p_ - lim[1]
    return a.is_const() and b.is_const() and a.const() >= 0 and b.const() >= 0


def spec_atoms(got, M):
    """Positive map of each geometric parameter, as it is used: softplus(raw) + floor."""
    floors = {}

    def visit(p):
        for k, v in p.t.items():
            for a, e in k:
                visit_node(a)
        at = [a for a in p.atoms() if isinstance(a, N) and a.k == "sp"]
        if len(at) == 1 and len(p.t) == 2 and p.t.get(()) is not None and p.t.get(((at[0], 1),)) == 1:
            floors.setdefault((at[0].a[0], at[0].a[1]), set()).add(p.t[()])

    def visit_node(a):
        if isinstance(a, N):
            for x in a.subs():
                if x.k == "poly" and x not in seen:
                    seen.add(x)
                    visit(from_key(x))
    seen = set()
    visit(got)
    out = {"e": {}}
    names = {"inc": (NON, 4), "off": (NON, 5), "piv": (NON, 6), "L0": (OPT, 1)}
    # floors seen where parameters appear alone
    allf = {x for s in floors.values() for x in s}
    for n in M.floors:
        allf.add(n)
    common = max(allf, default=None)
    if common is None:
        # look at the sums in the value graph
        common = Fraction_of(M)
    for nm, key in names.items():
        e = max(floors.get(key, {common}), key=lambda x: (x is not None, x))
        out["e"][nm] = e
        out[nm] = Poly.atom(N("sp", *key)) + (Poly({(): e}) if e is not None else Poly())
    return out


def Fraction_of(M):
    return Poly.c(M.consts.get("epsilon", 0)).const() or None

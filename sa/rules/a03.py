"""Symbolic composition of the kinematic chain: the matrix returned for given motor positions is multiplied out to a
polynomial normal form over the heliostat's parameter columns and compared, entry by entry, with
T(position) Rn(t1n) Ru(t1u) T(d1) Re(a_e) Re(t2e) Rn(t2n) T(d2) Ru(a_u) T(d3) C.  The inverse is reduced to the same normal
form and must solve that chain's equation for the normal; alignment must iterate inverse and forward on consistent inputs."""
from ..q import *
from ..alg import Alg, mmul, meq, ident, trans, pkey
from ..spec import euclidean
from ..vf import analyse, N, NONE
from ..repo import AnalysisError

KIN = "artist.field.kinematics.Kinematics"


def pcol(attr, c, cls):
    return None


class Spec:
    """Atoms of the specification, in the function's own self."""

    def __init__(self, qual):
        self.self_ = N("param", qual, "self")

    def col(self, attr, c):
        return Poly.atom(N("col", N("attr", self.self_, attr), c))


def forward_spec(A, S, ang):
    pos = [S.col("active_heliostat_positions", i) for i in range(3)]
    tr = [S.col("active_translation_deviation_parameters", i) for i in range(9)]
    ro = [S.col("active_rotation_deviation_parameters", i) for i in range(4)]
    fs = [trans(*pos), A.rot("n", ro[0]), A.rot("u", ro[1]), trans(*tr[0:3]), A.rot("e", ang[0]),
          A.rot("e", ro[2]), A.rot("n", ro[3]), trans(*tr[3:6]), A.rot("u", ang[1]), trans(*tr[6:9])]
    m = ident()
    for f in fs:
        m = mmul(m, f)
    return m


def concrete(repo):
    for c in repo.all_subclasses(KIN):
        ci = repo.classes[c]
        if "motor_positions_to_orientations" in ci.methods and not ci.methods["motor_positions_to_orientations"].is_abstract:
            yield c, ci


def check(repo, R):
    R.rule("A03.forward", "orientation matrix for motor positions equals the documented joint chain times the initial orientation offset, entry by entry")
    R.rule("A03.angles", "joint angles come from the actuators for the caller's motor positions")
    R.rule("A03.align_forward", "every orientation returned by alignment is the documented chain for the motor positions of the current iteration, times the offset")
    R.rule("A03.align_goal", "the normal handed to the inverse is the normalised bisector of the reversed incident direction and the direction from the concentrator origin to the aim point")
    R.rule("A03.align_stop", "alignment stops before the last iteration only when the difference of goal normal and mirror normal of every heliostat changed by at most min_eps")
    R.rule("A03.align_stored", "alignment keeps the motor positions it computed as the group's active motor positions")
    R.rule("A03.inverse", "the inverse computes the closed-form solutions of the same chain")
    R.rule("A03.offset", "the initial orientation offset is Re*Rn*Ru of the decomposition of the standard orientation")
    n = 0
    for c, ci in concrete(repo):
        n += 1
        # ---------------- forward
        f = ci.methods["motor_positions_to_orientations"]
        g = analyse(repo, f.qual, class_of_self=c)
        R.analysed(f.qual)
        where = f"{f.file}:{f.line}"
        A, S = Alg(), Spec(f.qual)
        v = g.ret()
        angs = [x for x in v.subs() if x.k == "rcall" and x.a[0].endswith(".motor_positions_to_angles")]
        ok = len(angs) == 1 and has_attr(arg(angs[0], "self"), "actuators") and peel(arg(angs[0], "motor_positions")) is N("param", f.qual, "motor_positions")
        R.ob("A03.angles", f.qual, ok, where, f"joint angles are {[show(a)[:120] for a in angs]}")
        if len(angs) == 1:
            an = A.node(angs[0])
            spec = mmul(forward_spec(A, S, [Poly.atom(N("col", an, 0)), Poly.atom(N("col", an, 1))]), A.m(N("attr", S.self_, "initial_orientation_offsets")))
            got = A.m(v)
            d = meq(got, spec)
            R.ob("A03.forward", f.qual, d is None, where, f"entry {d} of the orientation matrix is not that of the documented joint chain")
        # ---------------- alignment
        f = ci.methods.get("incident_ray_directions_to_orientations")
        if f is None:
            raise AnalysisError(f"anchor vanished: {c}.incident_ray_directions_to_orientations")
        alignment(repo, R, c, f)
        offset(repo, R, c, ci)
    if n < 1:
        raise AnalysisError("no kinematics class with a forward model")


def strip4(A, n):
    """First three components: x[:, :3] -> x."""
    n = peel(n)
    if n.k == "sub":
        ps = idx_parts(n.a[1])
        if ps[-1].k == "slice" and is_const(ps[-1].a[0], None) and num(ps[-1].a[1]) == 3:
            return n.a[0]
    return n


def alignment(repo, R, c, f):
    g = analyse(repo, f.qual, class_of_self=c)
    R.analysed(f.qual)
    where = f"{f.file}:{f.line}"
    A, S = Alg(), Spec(f.qual)
    ret = g.ret()
    ret = loop_last(ret)
    angs = {x for x in ret.subs() if x.k == "rcall" and x.a[0].endswith(".motor_positions_to_angles")}
    ok = len(angs) == 1
    goal = None
    if ok:
        an = angs.pop()
        ana = A.node(an)
        spec = mmul(forward_spec(A, S, [Poly.atom(N("col", ana, 0)), Poly.atom(N("col", ana, 1))]), A.m(N("attr", S.self_, "initial_orientation_offsets")))
        d = meq(A.m(ret), spec)
        R.ob("A03.align_forward", f.qual, d is None, where, f"entry {d} of the returned orientation is not that of the documented chain for the iterated motor positions")
        mp = arg(an, "motor_positions")
        R.ob("A03.align_forward", f.qual + ".iterate", mp.k in ("loopvar", "loopout", "phi"), where, "orientations do not use the iterated motor positions")
    else:
        R.ob("A03.align_forward", f.qual, False, where, f"returned orientation uses {len(angs)} different joint angle vectors")
        return
    # stored motor positions: result of the inverse for the goal normal
    inv = [e for e in g.calls("angles_to_motor_positions")]
    R.ob("A03.inverse", f.qual + ".solutions", len({e.node for e in inv}) == 2, where, f"{len({e.node for e in inv})} joint angle solutions converted to motor positions, 2 expected")
    sols = []
    for e in inv:
        a = peel(arg(e.node, "angles"))
        if a.k == "op" and a.a[0] == "stack" and first_arg(a).k in ("list", "tuple") and len(first_arg(a).a) == 2 and num(arg(a, "dim")) in (-1, 1):
            sols.append((first_arg(a).a[0], first_arg(a).a[1], e))
        elif a.k == "op" and a.a[0] in ("cat", "column_stack") and first_arg(a).k in ("list", "tuple") and len(first_arg(a).a) == 2:
            sols.append((first_arg(a).a[0], first_arg(a).a[1], e))
    if len(sols) != 2:
        R.ob("A03.inverse", f.qual + ".stack", False, where, "joint angle solutions are not (east, up) pairs")
        return
    # goal normal: the vector that is rotated by the transposed first tilt
    ro = [S.col("active_rotation_deviation_parameters", i) for i in range(4)]
    M1 = mmul(A.rot("n", ro[0]), A.rot("u", ro[1]))
    M2 = mmul(A.rot("e", ro[2]), A.rot("n", ro[3]))
    mp_upd = g.final
    # rotated normal: every column read of  X @ normals
    cands = {}
    for _, _, e in sols:
        for x in e.node.subs():
            if x.k == "bin" and x.a[0] == "@" and matrix_like(A, x.a[1], M1):
                cands[x] = x.a[2]
    if len({peel(v) for v in cands.values()}) != 1:
        R.ob("A03.inverse", f.qual + ".first_tilt", False, where, "the goal normal is not rotated by exactly the transposed first joint tilt")
        return
    R.ob("A03.inverse", f.qual + ".first_tilt", True, where)
    rot_node = list(cands)[0]
    normal = peel(list(cands.values())[0])
    m = [Poly.atom(N("m", i)) for i in range(3)]
    std = N("attr", S.self_, "kinematics_standard_orientation")

    def leaf(x):
        """entries of the second tilt matrix, of the rotated normal"""
        if x.k == "sub":
            ps = [p for p in idx_parts(x.a[1]) if not is_const(p, None)]
            b = x.a[0]
            if len(ps) == 3 and full_slice(ps[0]) and all(isinstance(num(p), int) for p in ps[1:]):
                mm = B.m(b)
                return mm[num(ps[1])][num(ps[2])]
            ps2 = [p for p in ps if not is_const(p, Ellipsis)]
            if len(ps2) == 2 and full_slice(ps2[0]) and isinstance(num(ps2[1]), int):
                bb = peel(b)
                while bb.k == "sub" and [num(p) for p in idx_parts(bb.a[1])] and all(full_slice(p) or num(p) == 0 for p in idx_parts(bb.a[1])):
                    bb = peel(bb.a[0])
                if bb is rot_node and 0 <= num(ps2[1]) < 3:
                    return m[num(ps2[1])]
                if bb.k == "bin" and bb.a[0] == "@" and peel(bb.a[2]) is std:
                    mm = B.m(bb.a[1])
                    return -mm[num(ps2[1])][1]    # standard orientation (0,-1,0,0), decided by A03.offset
        return None

    B = Alg(leaf)
    a00, a01 = M2[0][0], M2[0][1]
    r = B.power(a00 * a00 + a01 * a01, 0.5)
    eps_f = f
    phi = Poly.atom(N("op", "atan2", (("input", pkey(-a01)), ("other", pkey(a00)))))
    kinds = set()
    for k, (east, up, e) in enumerate(sols):
        w = e.where()
        u = unwrap(B.p(up))
        core = u + phi
        # core must be asin(x) or pi - asin(x)
        asin = [a for a in core.atoms() if a.k == "op" and a.a[0] == "asin"]
        kind = None
        if len(asin) == 1 and core == Poly.atom(asin[0]):
            kind = "principal"
        elif len(asin) == 1 and core == Poly.atom(N("pi")) - Poly.atom(asin[0]):
            kind = "supplement"
        good = kind is not None and ratio_ok(B, asin[0].a[1][0][1], m[0], r)
        R.ob("A03.inverse", f"{f.qual}.up_angle.{kind or k}", good, w, f"second joint angle {str(u)[:300]} does not solve n_e = r*sin(angle+phi)")
        kinds.add(kind)
        # first joint angle
        th = unwrap(B.p(up)) if False else None
        upn = B.p(up)
        V = mmul(M2, A.rot("u", Poly.atom(N("th"))))
        sth, cth = B.trig("sin", upn), B.trig("cos", upn)
        sv, cv = A.trig("sin", Poly.atom(N("th"))), A.trig("cos", Poly.atom(N("th")))
        v = []
        for i in range(3):
            p = -V[i][1]
            p = subst1(p, sv, sth)
            p = subst1(p, cv, cth)
            v.append(p)
        y = v[1] * m[2] - v[2] * m[1]
        x = v[1] * m[1] + v[2] * m[2]
        eg = unwrap(B.p(east))
        ok = False
        if len(eg.t) == 1:
            (kk, cc), = eg.t.items()
            if cc == 1 and len(kk) == 1 and kk[0][0].k == "op" and kk[0][0].a[0] == "atan2":
                from ..alg import from_key
                gy, gx = B.p(kk[0][0].a[1][0][1]), B.p(kk[0][0].a[1][1][1])
                ok = not trig_reduce(gy - y).t and not trig_reduce(gx - x).t
        R.ob("A03.inverse", f"{f.qual}.east_angle.{kind or k}", ok, w, "first joint angle is not atan2(v x m, v . m) about the east axis for this second joint angle")
    R.ob("A03.inverse", f.qual + ".both", kinds == {"principal", "supplement"}, where, f"solution kinds are {kinds}")
    # goal
    goal_ok, why = goal_normal(repo, f, normal, A, S, angs, ana)
    R.ob("A03.align_goal", f.qual, goal_ok, where, why)
    held = [peel(g.interp.snap(v, g.final)) for (_, a), v in g.final.heap.items() if a == "active_motor_positions"]
    new = g.interp.loopbody.get(mp, (None,))[0] if mp.k == "loopvar" else None
    ok = len(held) == 1 and held[0].k == "loopout" and new is not None and peel(held[0].a[3]) is peel(new) or len(held) == 1 and held[0] in (mp, new)
    R.ob("A03.align_stored", f.qual, ok, where, "the motor positions kept for the activated heliostats are not those the alignment computed")
    for lid, info in g.interp.loopinfo.items():
        for c, _ in info["breaks"]:
            ok, why = stops(g, c, normal, std)
            R.ob("A03.align_stop", f.qual, ok, where, why)


def conjuncts(c):
    if c is None:
        return []
    if c.k == "bool" and c.a[0] == "and":
        return [y for x in c.kids() for y in conjuncts(x)]
    return [c]


def stops(g, c, goal, std):
    """The loop is left early only when all(|previous - current misalignment| <= min_eps)."""
    found = None
    for x in conjuncts(c):
        neg = x.k == "not" or x.k == "un" and x.a[0] == "not"
        y = peel(list(x.kids())[0]) if neg else x
        if y.k == "op" and y.a[0] == ("any" if neg else "all"):
            y = peel(first_arg(y))
            if y.k == "cmp":
                found = (y, neg)
        elif y.k == "cmp" and not neg and any(z.k == "op" and z.a[0] in ("max", "amax") for z in (peel(y.a[1]), peel(y.a[2]))):
            z = [peel(t) for t in y.a[1:3]]
            z = [first_arg(t) if t.k == "op" and t.a[0] in ("max", "amax") else t for t in z]
            found = (N("cmp", y.a[0], z[0], z[1]), False)
    if found is None:
        return False, f"alignment stops early on another condition than 'the misalignment of every heliostat changed by at most min_eps': {show(c)[:160]}"
    y, neg = found
    op, l, r = y.a
    if peel(l).k == "param":
        l, r = r, l
        op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
    l, r = peel(l), peel(r)
    if not (r.k == "param" and r.a[1] == "min_eps" and op in ((">", ">=") if neg else ("<", "<="))):
        return False, "the change of the misalignment is not compared with min_eps as an upper bound"
    t = sumterms(first_arg(l)) if l.k == "op" and l.a[0] == "abs" else []
    if sorted(sg for sg, _ in t) != [-1, 1]:
        return False, "what is compared with min_eps is not the absolute change of the misalignment"
    prev = [peel(v) for _, v in t if peel(v).k == "loopvar"]
    cur = [peel(v) for _, v in t if peel(v).k != "loopvar"]
    if len(prev) != 1 or len(cur) != 1 or peel(g.interp.loopbody.get(prev[0], (NONE,))[0]) is not cur[0]:
        return False, "the current misalignment is not compared with that of the iteration before"
    cur = cur[0]
    if not (cur.k == "op" and cur.a[0] in ("mean", "sum", "amax", "norm") and num(arg(cur, "dim") or const(0)) in (-1, 1)):
        return False, "the misalignment is not taken per heliostat"
    d = peel(first_arg(cur))
    d = peel(first_arg(d)) if d.k == "op" and d.a[0] == "abs" else d
    ts = sumterms(d)
    ok = len(ts) == 2 and ts[0][0] == -ts[1][0] and any(goal in x.subs() for _, x in ts) and any(goal not in x.subs() and std in x.subs() for _, x in ts)
    return ok, "the misalignment is not the difference of the goal normal and the mirror normal of this iteration"


def subst1(p, atom_poly, q):
    (k, _), = atom_poly.t.items()
    return p.subst(k[0][0], q)


def unwrap(p):
    """Angle modulo 2*pi: strip wrap()."""
    from ..alg import from_key
    if len(p.t) == 1:
        (k, v), = p.t.items()
        if v == 1 and len(k) == 1 and k[0][1] == 1 and k[0][0].k == "op" and k[0][0].a[0] == "wrap":
            return unwrap(from_key(k[0][0].a[1][0][1]))
    return p


def ratio_ok(B, n, m0, r):
    """asin argument: clamp(m0 / (r [+ tiny]), about -1, about 1)."""
    from ..alg import from_key
    if n.k == "op" and n.a[0] == "clamp":
        lo, hi = B.p(arg(n, "min")), B.p(arg(n, "max"))
        if not (lo.is_const() and hi.is_const() and -1 <= lo.const() < -0.99 and 0.99 < hi.const() <= 1):
            return False
        q = B.p(arg(n, "input"))
    else:
        q = from_key(n) if n.k == "poly" else Poly.atom(n)
    if q == B.div(m0, r):
        return True
    # m0 * inv(r + eps)
    if len(q.t) == 1:
        (k, v), = q.t.items()
        d = dict(k)
        inv = [a for a in d if a.k == "inv"]
        if v == 1 and len(d) == 2 and len(inv) == 1 and d[inv[0]] == 1:
            den = from_key(inv[0].a[0])
            rest = den - r
            (m0k, _), = m0.t.items()
            names = rest.atoms()
            small = (rest.is_const() and abs(rest.const()) <= 1e-3) or (len(names) == 1 and all(a.k == "param" for a in names))
            return small and d.get(m0k[0][0]) == 1
    return False


def matrix_like(A, n, M):
    """n is the transpose of M"""
    if n.k not in ("op", "attr", "bin"):
        return False
    t = A.m(n)
    return meq(t, [[M[j][i] for j in range(4)] for i in range(4)]) is None


def loop_last(n):
    return n


def unit(n):
    """Every row divided by its Euclidean length."""
    return n.k == "op" and n.a[0].endswith("normalize") and euclidean(n) and num(arg(n, "dim") or const(1)) in (1, -1)


def goal_normal(repo, f, normal, A, S, angs, ana):
    """normal == to4d(normalize(normalize(aim - origin) - incident)), origin == last column of the forward chain."""
    q = f.qual
    x = peel(normal)
    if x.k == "rcall" and x.a[0].endswith("convert_3d_directions_to_4d_format"):
        x = peel(arg(x, "directions") or x)
    elif x.k == "op" and x.a[0] == "cat":
        x = peel(first_arg(x).a[0])
    x = strip4(A, x)
    if not unit(x):
        return False, f"goal normal is not normalised: {show(x)[:160]}"
    terms = sumterms(first_arg(x))
    inc = [(s, t) for s, t in terms if params_read(strip4(A, t)) == {"incident_ray_directions"}]
    ref = [(s, t) for s, t in terms if (s, t) not in inc]
    if not (len(inc) == 1 and inc[0][0] == -1 and len(ref) == 1 and ref[0][0] == 1):
        return False, "goal normal is not (-incident direction + reflection direction)"
    d = peel(ref[0][1])
    if not unit(d):
        return False, "desired reflection direction is not normalised"
    dt = sumterms(first_arg(d))
    aim = [(s, t) for s, t in dt if params_read(t) == {"aim_points"}]
    org = [(s, t) for s, t in dt if (s, t) not in aim]
    if not (len(aim) == 1 and aim[0][0] == 1 and len(org) == 1 and org[0][0] == -1):
        return False, "reflection direction is not aim point minus concentrator origin"
    o = strip4(A, org[0][1])
    if o.k == "bin" and o.a[0] == "@":
        hom = peel(o.a[2])
        spec = forward_spec(A, S, [Poly.atom(N("col", ana, 0)), Poly.atom(N("col", ana, 1))])
        if not (hom.k == "attr" and hom.a[1] == "homogeneous_origin"):
            return False, "concentrator origin is not the image of the homogeneous origin"
        if meq(A.m(o.a[1]), spec) is not None:
            return False, "concentrator origin is not computed with the forward chain of this iteration"
        return True, ""
    if o.k == "sub":
        ps = [num(p) for p in idx_parts(o.a[1]) if not full_slice(p)]
        spec = forward_spec(A, S, [Poly.atom(N("col", ana, 0)), Poly.atom(N("col", ana, 1))])
        if ps == [3] and meq(A.m(o.a[0]), spec) is None:
            return True, ""
    return False, f"concentrator origin is {show(o)[:120]}"


def vec(n):
    n = peel(n)
    if n.k == "op" and n.a[0] == "tensor" and first_arg(n).k == "list":
        return [num(x) for x in first_arg(n).a]
    return None


def offset(repo, R, c, ci):
    f = ci.methods.get("__init__")
    g = analyse(repo, f.qual, class_of_self=c)
    R.analysed(f.qual)
    heap = {}
    for (loc, attr), v in g.final.heap.items():
        heap[attr] = g.interp.snap(v, g.final)
    where = f"{f.file}:{f.line}"
    A = Alg()
    ok = "initial_orientation_offsets" in heap
    if ok:
        v = heap["initial_orientation_offsets"]
        dec = {x for x in v.subs() if x.k == "rcall" and x.a[0].endswith(".decompose_rotations")}
        ok = len(dec) == 1
        if ok:
            d = dec.pop()
            at = [Poly.atom(A.node(N("sub", d, const(i)))) for i in range(3)]
            at = [A.p(N("sub", d, const(i))) for i in range(3)]
            m = mmul(mmul(A.rot("e", at[0]), A.rot("n", at[1])), A.rot("u", at[2]))
            ok = meq(A.m(v), m) is None and vec(arg(d, "initial_vector")) == [0, 0, 1, 0] and \
                (peel(arg(d, "target_vector")) is peel(heap.get("kinematics_standard_orientation", const(0))))
    R.ob("A03.offset", f.qual, ok, where, "initial orientation offset is not Re*Rn*Ru of the decomposition from (0,0,1) to the standard orientation")
    R.ob("A03.offset", f.qual + ".standard", vec(heap.get("kinematics_standard_orientation", const(0))) == [0, -1, 0, 0], where, "standard orientation is not (0,-1,0,0)")
    R.ob("A03.offset", f.qual + ".origin", vec(heap.get("homogeneous_origin", const(0))) == [0, 0, 0, 1], where, "homogeneous origin is not (0,0,0,1)")

"""Symbolic matrices of the transform builders: every entry written into the returned buffer is normalised and compared with
the rotation by the given angle about the named axis / the translation by the given components; orthonormality and
determinant are re-derived from the extracted entries; canting uses a right-handed orthonormal frame and its inverse is the
transpose."""
from ..q import *
from ..alg import Alg, mmul, meq, ident, trans, pkey
from ..spec import euclidean
from ..vf import analyse, N
from ..repo import AnalysisError
from ..loops import spec_compare

T = "artist.geometry.transforms."


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def check(repo, R):
    R.rule("A05.rotation", "the returned matrix is the rotation by the given angle about the named axis, homogeneous part untouched")
    R.rule("A05.rigid", "extracted matrix is orthonormal with determinant +1 and maps the homogeneous coordinate to itself")
    R.rule("A05.translation", "the returned matrix is the identity with the components in the last column")
    R.rule("A05.canting", "canting rotates by the right-handed orthonormal frame of the canting vectors; the inverse is its transpose")
    R.rule("A05.decompose", "rotation decomposition scales the normalised axis by the angle between the normalised vectors")
    for ax, name in (("e", "rotate_e"), ("n", "rotate_n"), ("u", "rotate_u")):
        f = repo.func(T + name)
        g = analyse(repo, f.qual)
        R.analysed(f.qual)
        A = Alg()
        A.tf = "\0"
        where = f"{f.file}:{f.line}"
        got = A.m(g.ret())
        d = meq(got, A.rot(ax, Poly.atom(N("param", f.qual, ax))))
        R.ob("A05.rotation", name, d is None, where, f"entry {d} is {got[d[0]][d[1]] if d else ''}")
        rigid(R, name, got, where)
    f = repo.func(T + "rotate_distortions")
    g = analyse(repo, f.qual)
    R.analysed(f.qual)
    A = Alg()
    A.tf = "\0"
    got = A.m(g.ret())
    e, u = (Poly.atom(N("param", f.qual, c)) for c in "eu")
    d = meq(got, mmul(A.rot("e", e), A.rot("u", u)))
    R.ob("A05.rotation", "rotate_distortions", d is None, f"{f.file}:{f.line}", f"entry {d} is {got[d[0]][d[1]] if d else ''}")
    rigid(R, "rotate_distortions", got, f"{f.file}:{f.line}")
    f = repo.func(T + "translate_enu")
    g = analyse(repo, f.qual)
    R.analysed(f.qual)
    A = Alg()
    A.tf = "\0"
    d = meq(A.m(g.ret()), trans(*(Poly.atom(N("param", f.qual, c)) for c in "enu")))
    R.ob("A05.translation", "translate_enu", d is None, f"{f.file}:{f.line}", f"entry {d} differs")
    # scatter conditions: the buffers must be written unconditionally
    canting(repo, R)
    decompose(repo, R)
    between(repo, R)


def rigid(R, name, m, where):
    m3 = [r[:3] for r in m[:3]]
    ok = True
    for i in range(3):
        for j in range(3):
            s = Poly()
            for k in range(3):
                s = s + m3[i][k] * m3[j][k]
            if trig_reduce(s - Poly.c(1 if i == j else 0)).t:
                ok = False
    ok = ok and not trig_reduce(det3(m3) - Poly.c(1)).t
    ok = ok and all(not m[i][3].t and not m[3][i].t for i in range(3)) and m[3][3] == Poly.c(1)
    R.ob("A05.rigid", name, ok, where, "matrix is not a proper rotation")


def colvec(n):
    """('in', c) for canting_angles[..., c, :3]"""
    n = peel(n)
    if n.k == "sub":
        ps = [p for p in idx_parts(n.a[1])]
        last = ps[-1]
        if last.k == "slice" and num(last.a[1]) == 3 and is_const(last.a[0], None) and len(ps) >= 2 and isinstance(num(ps[-2]), int) and params_read(n.a[0]) - {"device"} == {"canting_angles"}:
            return ("in", num(ps[-2]))
    return None


def canting(repo, R):
    f = repo.func(T + "perform_canting")
    g = analyse(repo, f.qual)
    R.analysed(f.qual)
    where = f"{f.file}:{f.line}"
    leaves = leaves_where(g.ret())
    inv = N("param", f.qual, "inverse")
    got = {}
    for conds, v in leaves:
        pol = [p for c, p in conds if c is inv]
        if len(pol) == 1:
            got[pol[0]] = v
    R.ob("A05.canting", "branches", set(got) == {True, False}, where, "result does not distinguish direction and inverse")
    if set(got) != {True, False}:
        return
    mats = {}
    for pol, v in got.items():
        ok = v.k == "bin" and v.a[0] == "@" and peel(v.a[1], {"to", "clone"}) is N("param", f.qual, "data")
        R.ob("A05.canting", f"data.{pol}", ok, where, "result is not data @ matrix")
        if not ok:
            return
        mats[pol] = v.a[2]

    def tr(n):
        n = peel(n, LAYOUT)
        if n.k == "attr" and n.a[1] == "mT":
            return n.a[0]
        if n.k == "op" and n.a[0] == "transpose" and {num(x) for p, x in n.a[1] if p != "input"} in ({2, 3}, {-1, -2}):
            return first_arg(n)
        return None
    base = peel(mats[True], LAYOUT)
    t = tr(mats[False])
    ok = t is not None and peel(t, LAYOUT) is base
    M = base
    if not ok and tr(mats[True]) is not None and peel(tr(mats[True]), LAYOUT) is peel(mats[False], LAYOUT):
        R.ob("A05.canting", "direction", False, where, "forward and inverse canting are exchanged")
        return
    R.ob("A05.canting", "transpose", ok, where, "forward canting is not the transpose of the inverse (row vectors)")
    sl, b = slots(M)
    cols = {}
    corner = False
    zero = b.k == "op" and b.a[0] in ("zeros", "eye", "zeros_like")
    for k, v in sl.items():
        if len(k) == 2 and k[0] == ("slice", None, 3, None) and isinstance(k[1], int):
            cols[k[1]] = v
        elif k == (3, 3):
            corner = num(peel(v)) == 1 or (v.k == "op" and v.a[0].startswith("ones"))
        else:
            zero = False
    if not cols and peel(M).k != "update":
        R.ob("A05.canting", "frame", False, where, f"canting matrix is {show(M)[:160]}")
        return
    R.ob("A05.canting", "homogeneous", corner and zero and set(cols) == {0, 1, 2}, where, "homogeneous row/column of the canting matrix is not the identity's or a column is missing")
    if set(cols) != {0, 1, 2}:
        return

    def norm_of(n):
        n = peel(n)
        return peel(first_arg(n)) if n.k == "op" and n.a[0].endswith("normalize") and euclidean(n) and num(arg(n, "dim") or const(1)) == -1 else None

    def cross_of(n):
        n = peel(n)
        return (peel(arg(n, "input")), peel(arg(n, "other"))) if n.k == "op" and n.a[0] == "cross" else None
    e, n_, u = (peel(cols[i]) for i in range(3))
    e_ok = norm_of(e) is not None and colvec(norm_of(e)) == ("in", 0)
    R.ob("A05.canting", "east", e_ok, where, "first column is not the normalised east canting vector")
    cu = cross_of(norm_of(u)) if norm_of(u) is not None else cross_of(u)
    u_ok = cu is not None and norm_of(u) is not None and ((cu[0] is e or colvec(cu[0]) == ("in", 0)) and colvec(cu[1]) == ("in", 1))
    R.ob("A05.canting", "up", u_ok, where, "third column is not normalize(east x north canting vectors)")
    cn = cross_of(norm_of(n_)) if norm_of(n_) is not None else cross_of(n_)
    n_ok = cn is not None and cn[0] is u and cn[1] is e
    R.ob("A05.canting", "north", n_ok, where, "second column is not up x east (right-handed orthogonal frame)")


def decompose(repo, R):
    f = repo.func("artist.geometry.rotations.decompose_rotations")
    g = analyse(repo, f.qual)
    R.analysed(f.qual)
    where = f"{f.file}:{f.line}"
    v = g.ret()
    A = Alg()
    ok = v.k == "tuple" and len(v.a) == 3
    R.ob("A05.decompose", "components", ok, where, "three components expected")
    if not ok:
        return

    def norm_of(n, par):
        n = peel(n)
        if n.k == "op" and n.a[0].endswith("normalize") and euclidean(n):
            x = peel(first_arg(n))
            if x.k == "sub":
                ps = idx_parts(x.a[1])
                if ps[-1].k == "slice" and num(ps[-1].a[1]) == 3:
                    x = peel(x.a[0])
            return x.k == "param" and x.a[1] == par
        return False
    for i, x in enumerate(v.a):
        base, c = column(x)
        good = base is not None and num(c) == i
        if good:
            fs = factors(peel(base))
            th = [y for y in fs if y.k == "op" and y.a[0] == "acos"]
            ax = [y for y in fs if y.k == "op" and y.a[0].endswith("normalize") and euclidean(y)]
            good = len(fs) == 2 and len(th) == 1 and len(ax) == 1
            if good:
                cr = peel(first_arg(ax[0]))
                good = cr.k == "op" and cr.a[0] == "cross" and norm_of(arg(cr, "input"), "initial_vector") and norm_of(arg(cr, "other"), "target_vector")
                dt = peel(first_arg(th[0]))
                lim = dt.k == "op" and dt.a[0] == "clamp" and num(arg(dt, "min")) == -1 and num(arg(dt, "max")) == 1
                inner = peel(first_arg(dt)) if lim else dt
                fine = lim and params_read(inner) == {"initial_vector", "target_vector"} and (inner.k == "bin" and inner.a[0] == "@" or calls_in(inner, "sum", "dot"))
                good = good and fine
        R.ob("A05.decompose", f"component{i}", good, where, f"component {i} is {show(x)[:200]}")


BETWEEN = """
    a = from_orientation[:3] / torch.norm(from_orientation[:3])
    b = to_orientation[:3] / torch.norm(to_orientation[:3])
    cosine = torch.clamp(torch.dot(a, b), -1.0, 1.0)
    normal = torch.linalg.cross(a, b)
    length = torch.norm(normal)
    if length < 1e-6 and cosine > 0:
        return torch.tensor([1.0, 0.0, 0.0]), torch.tensor(0.0)
    if length < 1e-6 and cosine < 0:
        if abs(a[0]) < abs(a[1]):
            other = torch.tensor([1.0, 0.0, 0.0])
        else:
            other = torch.tensor([0.0, 1.0, 0.0])
        half = torch.linalg.cross(a, other)
        return half / torch.norm(half), torch.tensor(torch.pi)
    return normal / length, torch.acos(cosine)
"""


def between(repo, R):
    R.rule("A05.between", "the rotation between two directions is given by the unit axis along their cross product and the enclosed angle, parallel and opposite directions included")
    spec_compare(repo, R, "A05.between", "artist.geometry.rotations.rotation_angle_and_axis", BETWEEN, names=("axis", "angle"))

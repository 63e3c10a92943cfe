"""The four splatting contributions of a ray are extracted from all scatter-add calls as (pixel index, value) pairs and compared, in every
in/out-of-bitmap case, with the reference bilinear weights; the bitmap buffer starts at zero, has one row-major image per heliostat and is
flipped once along the up axis."""
from ..q import *
from ..spec import AlgX, spec_graph, equiv, explain, is_mask
from ..vf import N, analyse, cval
from ..repo import AnalysisError

QUAL = "artist.raytracing.heliostat_ray_tracer.HeliostatRayTracer.bilinear_splatting"
SPEC = """
    W, H = self.bitmap_resolution[0], self.bitmap_resolution[1]
    e, u, a = bitmap_intersections_e, bitmap_intersections_u, absolute_intensities
    e0, u0 = e.long(), u.long()
    inside = (0 <= e0) & (e0 + 1 < W) & (0 <= u0) & (u0 + 1 < H)
    el, eh, ul, uh = e0 + 1 - e, e - e0, u0 + 1 - u, u - u0
    return (
        torch.where(inside, u0 * W + e0, 0), torch.where(inside, el * ul * a, 0),
        torch.where(inside, u0 * W + e0 + 1, 0), torch.where(inside, eh * ul * a, 0),
        torch.where(inside, (u0 + 1) * W + e0, 0), torch.where(inside, el * uh * a, 0),
        torch.where(inside, (u0 + 1) * W + e0 + 1, 0), torch.where(inside, eh * uh * a, 0),
    )
"""
NAMES = ("low east/low up", "high east/low up", "low east/high up", "high east/high up")
SC = ("scatter_add_", "scatter_add")


def algebra():
    def leaf(n):
        if n.k == "op" and n.a[0] in ("long", "floor", "trunc", "int") and n.a[1] and \
                any(x.k == "param" and x.a[1].startswith("bitmap_intersections") for x in n.subs()) and not is_mask(first_arg(n)):
            x = first_arg(n)
            while x.k == "op" and x.a[0] in ("floor", "trunc", "long", "int", "to", "reshape", "view", "flatten"):
                x = first_arg(x)
            return Poly.atom(N("op", "trunc", (("input", A.node(x)),)))
        if n.k == "op" and n.a[0] in ("to", "type") and len(n.a[1]) > 1 and any(v.k == "global" and v.a[0] in ("torch.long", "torch.int64", "torch.int32", "torch.int") for _, v in n.a[1][1:]) \
                and any(x.k == "param" and x.a[1].startswith("bitmap_intersections") for x in n.subs()) and not is_mask(first_arg(n)):
            return leaf(N("op", "long", (("input", first_arg(n)),)))
        return None
    A = AlgX(leaf)
    return A


def pairs(idx, src):
    """Aligned (index, value) parts of a scatter, splitting matching concatenations."""
    i, s = peel(idx), peel(src)
    if i.k == "op" and i.a[0] in ("cat", "stack") and s.k == "op" and s.a[0] == i.a[0] and first_arg(i).k in ("list", "tuple") and first_arg(s).k in ("list", "tuple") \
            and len(first_arg(i).a) == len(first_arg(s).a) and num(arg(i, "dim") or const(0)) in (1, -1):
        return list(zip(first_arg(i).a, first_arg(s).a))
    return [(idx, src)]


def check(repo, R):
    R.rule("R03.pixels", "pixel index and bilinear weight times intensity of each of the four neighbours; nothing outside the bitmap")
    R.rule("R03.image", "zero-initialised row-major image per heliostat of the bitmap resolution, flipped once along up")
    f = repo.func(QUAL)
    where = f"{f.file}:{f.line}"
    g = analyse(repo, QUAL)
    R.analysed(QUAL)
    spec = spec_graph(repo, QUAL, SPEC).ret().a
    A = algebra()
    n = g.ret()
    layout = []
    got = []
    while True:
        if n.k == "op" and n.a[0] in SC:
            if num(arg(n, "dim")) not in (1, -1):
                R.ob("R03.image", "scatter.dim", False, where, "scatter not along the pixel axis")
            got += pairs(arg(n, "index"), arg(n, "src"))
            n = first_arg(n)
        elif n.k == "op" and n.a[0] in ("flip", "view", "reshape", "contiguous", "clone", "to", "unflatten") and n.a[1]:
            layout.append(n)
            n = first_arg(n)
        elif n.k == "mut" and isinstance(n.a[-1], N):
            n = n.a[-1]
        elif n.k == "loopout":
            n = n.a[3]
        else:
            break
    R.ob("R03.image", "buffer", n.k == "op" and n.a[0] in ("zeros", "new_zeros", "zeros_like"), where, f"contributions are added to {show(n)[:80]} instead of zeros")
    H = A.p(N("sub", N("attr", N("param", QUAL, "self"), "bitmap_resolution"), const(1)))
    W = A.p(N("sub", N("attr", N("param", QUAL, "self"), "bitmap_resolution"), const(0)))
    if n.k == "op" and n.a[0] == "zeros":
        sz = first_arg(n)
        dims = list(sz.a) if sz.k in ("tuple", "list") else [v for kx, v in n.a[1] if kx.isdigit() or kx in ("size",)]
        ok = len(dims) == 2 and A.p(peel(dims[1])) == H * W
        R.ob("R03.image", "pixels", ok, where, "buffer has not up x east pixels per heliostat")
    flips = [x for x in layout if x.a[0] == "flip"]
    fd = [sorted(num(y) for y in (v.a if v.k in ("list", "tuple") else (v,))) for x in flips for kx, v in x.a[1][1:]]
    R.ob("R03.image", "flip", fd in ([[1]], [[-2]]), where, f"up axis flipped by {fd}")
    views = [x for x in layout if x.a[0] in ("view", "reshape")]
    ok = len(views) == 1
    if ok:
        vs = [v for _, v in views[0].a[1][1:]]
        if len(vs) == 1 and vs[0].k in ("tuple", "list"):
            vs = list(vs[0].a)
        ok = len(vs) == 3 and A.p(peel(vs[1])) == H and A.p(peel(vs[2])) == W
    R.ob("R03.image", "rows x columns", ok, where, "image is not reshaped to (heliostats, up, east)")
    left = list(got)
    for k in range(4):
        best = None
        for pr in left:
            a = equiv(A, pr[0], spec[2 * k])
            b = equiv(A, pr[1], spec[2 * k + 1])
            sc = (a is not None) + (b is not None)
            if best is None or sc < best[0]:
                best = (sc, pr, a or b)
        if best is None:
            R.ob("R03.pixels", NAMES[k], False, where, "no contribution")
            continue
        R.ob("R03.pixels", NAMES[k], best[0] == 0, where, "" if best[0] == 0 else explain(best[2])[:300])
        if best[0] == 0:
            left.remove(best[1])
    R.ob("R03.pixels", "total", len(got) == 4, where, f"{len(got)} contributions per ray, 4 expected")

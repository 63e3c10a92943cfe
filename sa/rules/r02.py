"""Both ray-target intersection routines are compared with a reference formulation (plane and cylinder geometry, incidence cosine,
in-area mask, bitmap scaling) in algebraic normal form, in every case of the hit conditions; intensities and distances of misses must be
zero in each of those cases and no further condition may remove a hit."""
from ..q import *
from ..spec import AlgX, spec_graph, equiv, explain, is_bool_atom, item
from ..vf import N, analyse
from ..repo import AnalysisError

PLANE = """
    if target_area_indices is None:
        target_area_indices = torch.zeros(1)
    d = rays.ray_directions
    o = points_at_ray_origins
    n = target_areas.normals[target_area_indices]
    c = target_areas.centers[target_area_indices]
    dims = target_areas.dimensions[target_area_indices]
    W = bitmap_resolution[0]
    H = bitmap_resolution[1]
    cosine = (d * n).sum(dim=-1)
    front = cosine < 0
    t = ((c - o) * n).sum(dim=-1) / cosine
    hit = o + d * t[..., None]
    e = (hit[:, 0] - c[:, 0]) / dims[:, 0] + 0.5
    u = (hit[:, 2] - c[:, 2]) / dims[:, 1] + 0.5
    valid = front & (t > 0) & (0 <= e * (W - 1)) & (e * (W - 1) <= W - 1) & (0 <= u * (H - 1)) & (u * (H - 1) <= H - 1)
    return (
        torch.where(valid, (1 - e) * (W - 1), DONTCARE),
        torch.where(valid, u * (H - 1), DONTCARE),
        torch.where(valid, t, 0),
        torch.where(valid, -cosine * rays.ray_magnitudes, 0),
    )
"""

CYL = """
    if target_area_indices is None:
        target_area_indices = torch.zeros(1)
    n = target_areas.normals[target_area_indices]
    a = target_areas.axes[target_area_indices]
    s = torch.cross(n, a, dim=-1)
    o = points_at_ray_origins - target_areas.centers[target_area_indices][:, None, :]
    d = rays.ray_directions
    R = target_areas.radii[target_area_indices]
    h = target_areas.heights[target_area_indices]
    w = target_areas.opening_angles[target_area_indices]
    W = bitmap_resolution[0]
    H = bitmap_resolution[1]
    ox, oy, oz = (o * s).sum(dim=-1), (o * n).sum(dim=-1), (o * a).sum(dim=-1)
    dx, dy, dz = (d * s).sum(dim=-1), (d * n).sum(dim=-1), (d * a).sum(dim=-1)
    qa = dx**2 + dy**2
    qb = 2 * (ox * dx + oy * dy)
    qc = ox**2 + oy**2 - R**2
    disc = qb**2 - 4 * qa * qc
    inf_hit = (disc >= 0) & (torch.abs(qa) > 1e-8)
    root = torch.sqrt(disc + 1e-12)
    near = (-qb - root) / (2 * qa)
    far = (-qb + root) / (2 * qa)
    t = torch.minimum(torch.where(near > 0, near, torch.inf), torch.where(far > 0, far, torch.inf))
    found = torch.isfinite(t) & inf_hit
    x, y = ox + t * dx, oy + t * dy
    z = oz + t * dz + h / 2
    rho = torch.sqrt(x**2 + y**2)
    cosine = -(dx * x / rho + dy * y / rho)
    theta = torch.atan2(-x, y) + w / 2
    valid = found & (z >= 0) & (z <= h) & (theta >= 0) & (theta <= w)
    return (
        torch.where(valid, theta / w * (W - 1), DONTCARE),
        torch.where(valid, z / h * (H - 1), DONTCARE),
        torch.where(valid, t, 0),
        torch.where(valid, cosine.clamp(min=0.0) * rays.ray_magnitudes, 0),
    )
"""


GEO = "artist.raytracing.geometry."
NAMES = ("east bitmap coordinate", "up bitmap coordinate", "intersection distance", "intensity")


def positive(a):
    """Target extents, chosen (strictly positive) ray distances."""
    if a.k == "op" and a.a[0] == "minof":
        return True
    return any(x.k == "attr" and x.a[1] in ("dimensions", "heights", "radii", "opening_angles") for x in ([a] if a.k == "attr" else
               [a.a[0]] if a.k == "sub" else [a.a[0], *(a.a[0].kids() if isinstance(a.a[0], N) else ())] if a.k == "col" else []))


def by_mask(p):
    """Some term is divided by a quantity made of conditions only."""
    for k in p.t:
        for a, e in k:
            if e < 0 and is_bool_atom(a):
                return True
            if a.k == "inv":
                q = [b for kk, _ in a.a[0].a[0] for b, _ in kk]
                if q and all(is_bool_atom(b) for b in q):
                    return True
    return False


def compare(repo, R, rule, qual, text, names, A=None, inline=(), pick=None):
    f = repo.func(qual)
    g = analyse(repo, qual, inline=inline).ret()
    s = spec_graph(repo, qual, text, inline=inline).ret()
    A = A or AlgX(positive=positive)
    R.analysed(qual)
    for i, nm in enumerate(names):
        try:
            x = equiv(A, item(g, i) if len(names) > 1 else g, item(s, i) if len(names) > 1 else s)
        except (IndexError, TypeError) as e:
            R.ob(rule, f"{f.name}.{nm}", False, f"{f.file}:{f.line}", f"result has another structure ({e})")
            continue
        if x is None and by_mask(A.p(item(g, i) if len(names) > 1 else g)):
            R.ob(rule, f"{f.name}.{nm}", False, f"{f.file}:{f.line}", "divides by a hit condition: misses are infinite or undefined")
            continue
        R.ob(rule, f"{f.name}.{nm}", x is None, f"{f.file}:{f.line}", "" if x is None else explain(x)[:400])


def check(repo, R):
    R.rule("R02.plane", "bitmap coordinates, distance and intensity of a ray on a planar target equal the reference geometry in every hit/miss case")
    R.rule("R02.cylinder", "the same for cylindrical targets, nearest positive intersection with the side surface")
    R.rule("R02.reflect", "reflection: d - 2 (d.n) n")
    compare(repo, R, "R02.plane", GEO + "line_plane_intersections", PLANE, NAMES)
    compare(repo, R, "R02.cylinder", GEO + "line_cylinder_intersections", CYL, NAMES)
    compare(repo, R, "R02.reflect", GEO + "reflect", """
    d, n = incident_ray_directions, reflection_surface_normals
    return d - 2 * (d * n).sum(dim=-1, keepdim=True) * n
""", ("direction",))

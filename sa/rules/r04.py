"""The ray tracer's batch loop is compared with a reference: which rays, points, target areas and target indices enter each intersection
routine, how their results are merged, which intensity reaches the bitmap, which rows of the result buffers a batch fills, and how the three
factors are counted.  Calls are compared argument by argument in normal form, conditions case by case."""
from ..q import *
from ..spec import spec_graph, equiv, explain, item, is_mask
from ..loops import AlgL, Canon, final_attrs, spec_compare
from ..vf import N, analyse, const, UNDEF
from ..repo import AnalysisError

RT = "artist.raytracing.heliostat_ray_tracer.HeliostatRayTracer."
SPEC = """
    device = get_device(device=device)
    group = self.heliostat_group
    tower = self.scenario.solar_tower
    assert torch.equal(group.active_heliostats_mask, active_heliostats_mask)
    reflected = geometry.reflect(incident_ray_directions=incident_ray_directions.unsqueeze(1), reflection_surface_normals=group.active_surface_normals)
    planar_count = tower.number_of_target_areas_per_type[0]
    flux = torch.empty(1)
    intercept = torch.empty(1)
    on_target = torch.empty(1)
    blocking_rate = torch.empty(1)
    if self.blocking_active:
        corners, spans, normals = blocking.create_blocking_primitives_rectangles_by_index(
            blocking_heliostats_active_surface_points=self.blocking_heliostat_surfaces_active, device=device)
    for k, (bu, be) in enumerate(self.distortions_loader):
        chosen = list(self.distortions_sampler)[k * self.batch_size : (k + 1) * self.batch_size]
        M = torch.zeros(group.number_of_active_heliostats, dtype=torch.bool, device=device)
        M[chosen] = True
        rays = self.scatter_rays(distortion_u=bu, distortion_e=be, original_ray_direction=reflected[M], device=device)
        origins = group.active_surface_points[M]
        target = target_area_indices[M]
        P = target < planar_count
        e = torch.zeros(1)
        u = torch.zeros(1)
        t = torch.zeros(1)
        a = torch.zeros(1)
        if P.any():
            e[P], u[P], t[P], a[P] = geometry.line_plane_intersections(
                rays=Rays(ray_directions=rays.ray_directions[P], ray_magnitudes=rays.ray_magnitudes[P]),
                points_at_ray_origins=origins[P], target_areas=tower.target_areas[0], target_area_indices=target[P],
                bitmap_resolution=self.bitmap_resolution, device=device)
        if (~P).any():
            e[~P], u[~P], t[~P], a[~P] = geometry.line_cylinder_intersections(
                rays=Rays(ray_directions=rays.ray_directions[~P], ray_magnitudes=rays.ray_magnitudes[~P]),
                points_at_ray_origins=origins[~P], target_areas=tower.target_areas[1], target_area_indices=target[~P] - planar_count,
                bitmap_resolution=self.bitmap_resolution, device=device)
        rays_each = t.shape[1] * t.shape[2]
        blocked = torch.zeros(1)
        if self.blocking_active:
            owner = (torch.nonzero(active_heliostats_mask, as_tuple=True)[0] + self.first_blocking_primitive_index)[chosen].repeat_interleave(rays_each)
            candidates = blocking.lbvh_filter_blocking_planes(points_at_ray_origins=origins, ray_directions=rays.ray_directions,
                blocking_primitives_corners=corners, ray_to_heliostat_mapping=owner, intersection_distances_target=t, device=device)
            if candidates.numel() > 0:
                blocked = blocking.soft_ray_blocking_mask(ray_origins=origins, ray_directions=rays.ray_directions,
                    blocking_primitives_corners=corners[candidates], blocking_primitives_spans=spans[candidates],
                    blocking_primitives_normals=normals[candidates], epsilon=1e-12, softness=1000.0)
        intensity = a * (1 - blocked) * (1 - ray_extinction_factor) * mirror_reflectivity
        flux[M] = self.bilinear_splatting(bitmap_intersections_e=e, bitmap_intersections_u=u, absolute_intensities=intensity, device=device)
        on_target[M] = (a > 0).sum((1, 2)) / rays_each
        blocking_rate[M] = (blocked < 1e-3).sum((1, 2)) / rays_each
        intercept[M] = (intensity > 0).sum((1, 2)) / rays_each
    local = self.get_sampler_indices()
    return flux[local], intercept[local], on_target[local], blocking_rate[local]
"""



INIT = """
    surfaces = []
    offset = 0
    for group in scenario.heliostat_field.heliostat_groups:
        if group is heliostat_group:
            offset = sum(len(x) for x in surfaces)
        points = group.surface_points.clone()
        points[..., :3] += group.positions[:, None, :3]
        mask = group.active_heliostats_mask.bool()
        if mask.any():
            points[mask] = group.active_surface_points
        surfaces.append(points)
    self.spec_offset = offset
    self.spec_surfaces = torch.cat(surfaces)
    if dni is not None:
        size = (torch.norm(heliostat_group.canting[0], dim=1)[0])[:2] * 4 + 0.02
        self.spec_magnitude = dni * size[0] * size[1] / (heliostat_group.active_surface_points.shape[1] * scenario.light_sources.light_source_list[0].number_of_rays)
    else:
        self.spec_magnitude = 1.0
"""
NAMES = ("flux", "intercept factor", "on-target factor", "blocking factor")


def selects(i):
    return is_mask(i) or (i.k == "update" and i.a[2].k == "const")


def scalar(x):
    return x.k == "const" or (x.k == "sub" and num(x.a[1]) is not None and x.a[0].k == "attr") or (x.k == "attr" and x.a[0].k == "param" and x.a[1] == "first_blocking_primitive_index")


def push(x, i):
    """Select rows of the operands instead of the result of an elementwise expression; scalars stay."""
    if x.k == "cmp":
        return N("cmp", x.a[0], push(x.a[1], i), push(x.a[2], i))
    if x.k == "bin":
        return N("bin", x.a[0], push(x.a[1], i), push(x.a[2], i))
    if x.k == "un":
        return N("un", x.a[0], push(x.a[1], i))
    if scalar(x):
        return x
    return N("sub", x, i)


class AlgRows(AlgL):
    def _px(self, n):
        if n.k == "sub" and selects(n.a[1]) and (n.a[0] is n.a[1] or is_mask(n.a[0])):
            if n.a[0] is n.a[1]:
                return Poly.c(1)
            x = peel(n.a[0])
            if x.k in ("bin", "un", "cmp"):
                return self.p(push(x, n.a[1]))
        if n.k == "sub" and n.a[0].k == "bin" and n.a[0].a[0] in ("+", "-", "*") and (scalar(n.a[0].a[1]) or scalar(n.a[0].a[2])) and num(n.a[1]) is None \
                and n.a[1].k in ("sub", "update", "cmp", "param"):
            return self.p(push(n.a[0], n.a[1]))
        return super()._px(n)


def buffers(g):
    """Per returned buffer: stores made in the batch loop [(index, value)] and the initial value."""
    out = []
    r = g.ret()
    for i in range(4):
        v = item(r, i)
        sel = None
        if v.k == "sub" and v.a[0].k in ("loopout", "phi"):
            v, sel = v.a
        st = []
        base = v
        if v.k == "loopout":
            b = v.a[3]
            while b.k == "update":
                st.append((b.a[1], b.a[2]))
                b = b.a[0]
            base = v.a[2] if b.k == "loopvar" else b
        out.append((st, base, sel))
    return out


def dims(n):
    n = peel(n)
    if n.k == "op" and n.a[0] in ("empty", "zeros", "full"):
        xs = []
        for k, v in n.a[1]:
            if k.isdigit() or k in ("size", "input"):
                xs += list(v.a) if v.k in ("tuple", "list") else [v]
        return xs
    return None


def check(repo, R):
    R.rule("R04.rays", "every row of every result buffer equals the reference: which rays, points and targets enter which routine, how results are merged, attenuated, splatted and counted")
    R.rule("R04.rows", "a batch writes exactly the rows of the activations it traced, in all four buffers")
    R.rule("R04.local", "the rows handed to the caller are those of the samples traced by this rank, in the order in which the tracer reports them")
    R.rule("R04.buffers", "one bitmap of height x width and one factor per activation")
    R.rule("R04.guard", "a mask other than the activated one is rejected before tracing")
    R.rule("R04.scatter", "scattered rays are the reflected directions rotated by the ray's own distortions, with the tracer's ray magnitude")
    R.rule("R04.magnitude", "a ray carries 1, or with a DNI its heliostat's power divided by the number of its rays")
    R.rule("R04.blockers", "blocking surfaces are the aligned surfaces of all groups in order, and the group's own offset into them is used")
    q = RT + "trace_rays"
    f = repo.func(q)
    where = f"{f.file}:{f.line}"
    g = analyse(repo, q)
    s = spec_graph(repo, q, SPEC)
    R.analysed(q, RT + "__init__", RT + "scatter_rays")
    A = AlgRows()
    # the attribute holding the offset is identified by what __init__ stores in it
    qi = RT + "__init__"
    fi = repo.func(qi)
    gi, si = analyse(repo, qi), spec_graph(repo, qi, INIT)
    ci, cs = Canon(gi.interp, A), Canon(si.interp, A)
    want = final_attrs(si)
    have = final_attrs(gi)

    def under_blocking(v):
        """Value of an attribute set only when blocking is on."""
        while v.k == "phi" and v.a[0].k in ("param", "attr", "op"):
            v = v.a[1] if v.a[1].k != "attr" else v.a[2]
        return v

    found = {}
    for nm, spec in want.items():
        if not nm.startswith("spec_"):
            continue
        if nm == "spec_magnitude":
            v = have.get("ray_magnitude")
            x = (None, v, None) if v is None else equiv(A, ci.rw(v), cs.rw(spec))
            R.ob("R04.magnitude", "HeliostatRayTracer.ray_magnitude", x is None, f"{fi.file}:{fi.line}", "" if x is None else "not set" if v is None else explain(x)[:400])
            continue
        sv = A.p(cs.rw(spec))
        for a, v in have.items():
            if A.p(ci.rw(under_blocking(v))) == sv:
                found[nm] = a
        R.ob("R04.blockers", f"HeliostatRayTracer.{nm[5:]}", nm in found, f"{fi.file}:{fi.line}",
             "" if nm in found else "no attribute holds " + {"spec_offset": "the number of heliostats in preceding groups",
                                                               "spec_surfaces": "all groups' surfaces with active ones at their aligned positions"}[nm])
    ren = {found.get("spec_offset"): "first_blocking_primitive_index", found.get("spec_surfaces"): "blocking_heliostat_surfaces_active"}

    def leaf(n):
        if n.k == "attr" and n.a[1] in ren and ren[n.a[1]] != n.a[1] and n.a[0].k == "param":
            return Poly.atom(N("attr", n.a[0], ren[n.a[1]]))
        return None
    if any(k and k != v for k, v in ren.items()):
        A = AlgRows(leaf=leaf)
    cg, cs = Canon(g.interp, A), Canon(s.interp, A)
    bg, bs = buffers(g), buffers(s)
    for i, nm in enumerate(NAMES):
        (sg, base, lg), (ss, _, ls) = bg[i], bs[i]
        ok = lg is not None and A.argn(cg.rw(lg)) is A.argn(cs.rw(ls))
        R.ob("R04.local", f"trace_rays.{nm}", ok, where, "" if ok else "the rows returned are not those of the samples the rank's sampler assigned to it, in sampler order"
             + ("" if lg is None else f": {show(lg)[:150]}"))
        if len(sg) != 1:
            R.ob("R04.rows", f"trace_rays.{nm}", False, where, f"{len(sg)} stores per batch instead of one")
            continue
        (ig, vg), (is_, vs) = sg[0], ss[0]
        ok = A.argn(cg.rw(ig)) is A.argn(cs.rw(is_))
        R.ob("R04.rows", f"trace_rays.{nm}", ok, where, "" if ok else f"rows {show(ig)[:150]} instead of {show(is_)[:150]}")
        x = equiv(A, cg.rw(vg), cs.rw(vs))
        R.ob("R04.rays", f"trace_rays.{nm}", x is None, where, "" if x is None else explain(x)[:600])
        d = dims(base)
        tot = "sum(input=active_heliostats_mask)"
        H, W = (A.argn(N("op", "int", (("input", N("sub", N("attr", N("param", q, "self"), "bitmap_resolution"), const(k))),))) for k in (1, 0))
        if d is None:
            R.ob("R04.buffers", f"trace_rays.{nm}", False, where, f"buffer is {show(base)[:120]}")
            continue
        strip = lambda x: x if not (x.k == "op" and x.a[0] in ("int", "item")) else strip(first_arg(x))
        res = N("attr", N("param", q, "self"), "bitmap_resolution")
        exp = [N("op", "sum", (("input", N("param", q, "active_heliostats_mask")),))] + ([N("sub", res, const(1)), N("sub", res, const(0))] if i == 0 else [])
        alt = N("attr", N("attr", N("param", q, "self"), "heliostat_group"), "number_of_active_heliostats")
        ok = len(d) == len(exp) and all(A.argn(strip(a)) is A.argn(b) or (j == 0 and strip(a) is alt) for j, (a, b) in enumerate(zip(d, exp)))
        R.ob("R04.buffers", f"trace_rays.{nm}", ok, where, "" if ok else f"size ({', '.join(show(x)[:50] for x in d)})")
    # guard
    tests = []
    for e in g.events:
        if e.kind == "assert":
            tests.append(e.node)
        if e.kind == "raise" and e.pc:
            tests += [N("un", "not", c) if p else c for c, p, t in e.pc]
    spec_t = [e.node for e in s.events if e.kind == "assert"][0]
    eqs = {A.p(t) for t in tests} if tests else set()
    ok = any(A.cond(t) == A.cond(spec_t) for t in tests) or any(same_mask(t) for t in tests)
    R.ob("R04.guard", "trace_rays.mask", ok, where, "" if ok else "no check that the mask equals the activated mask")
    spec_compare(repo, R, "R04.scatter", RT + "scatter_rays", """
    r = transforms.rotate_distortions(u=distortion_u, e=distortion_e, device=device)
    d = (r @ original_ray_direction.unsqueeze(1).unsqueeze(-1)).squeeze(-1)
    return Rays(ray_directions=d, ray_magnitudes=torch.full((d.shape[:3]), self.ray_magnitude, device=device))
""")


def same_mask(t):
    t = peel(t)
    return t.k == "op" and t.a[0] in ("equal", "torch.equal") and {"active_heliostats_mask"} <= {x.a[1] for x in t.subs() if x.k == "param"} and \
        any(x.k == "attr" and x.a[1] == "active_heliostats_mask" for x in t.subs())

"""Blocking decisions: the rectangles standing for blocking heliostats, the soft occlusion formula, the box test, and which blockers the
traversal keeps.  All are compared with reference bodies in normal form; the traversal loop is compared coinductively (same state, same exit)."""
from ..loops import AlgL, spec_compare

B = "artist.raytracing.blocking."
CREATE = """
    flat = blocking_heliostats_surface_points
    n = blocking_heliostats_active_surface_points.shape[0]
    west = flat[:, :, 0].min(dim=1).values
    east = flat[:, :, 0].max(dim=1).values
    south = flat[:, :, 1].min(dim=1).values
    north = flat[:, :, 1].max(dim=1).values
    box = torch.stack([torch.stack([west, south], dim=1), torch.stack([west, north], dim=1),
                       torch.stack([east, north], dim=1), torch.stack([east, south], dim=1)], dim=1)
    nearest = torch.norm(flat[:, :, :2][:, :, None, :] - box[:, None, :, :], dim=-1).argmin(dim=1)
    corners = blocking_heliostats_active_surface_points[torch.arange(n, device=device)[:, None], nearest]
    spans = torch.zeros((n, 2, 4), device=device)
    spans[:, 0] = corners[:, 1] - corners[:, 0]
    spans[:, 1] = corners[:, 3] - corners[:, 0]
    normal = torch.nn.functional.normalize(torch.cross(spans[:, 0, :3], spans[:, 1, :3], dim=-1), dim=-1)
    return corners, spans, torch.cat([normal, torch.zeros((n, 1), device=device)], dim=-1)
"""
BYINDEX = """
    pts = blocking_heliostats_active_surface_points
    n, m, _ = pts.shape
    corners = torch.zeros((n, 4, 4), device=device)
    corners[:, 0] = pts[:, int(m / 2)]
    corners[:, 1] = pts[:, int(math.sqrt(m / 4) - 1)]
    corners[:, 2] = pts[:, int((m / 2) - 1)]
    corners[:, 3] = pts[:, int(m - math.sqrt(m / 4))]
    spans = torch.zeros((n, 2, 4), device=device)
    spans[:, 0] = corners[:, 1] - corners[:, 0]
    spans[:, 1] = corners[:, 3] - corners[:, 0]
    normal = torch.nn.functional.normalize(torch.cross(spans[:, 0, :3], spans[:, 1, :3], dim=-1), dim=-1)
    return corners, spans, torch.cat([normal, torch.zeros((n, 1), device=device)], dim=-1)
"""
SOFT = """
    o = ray_origins[:, None, :, None, :3]
    d = ray_directions[:, :, :, None, :3]
    c = blocking_primitives_corners[None, None, None, :, 0, :3]
    a = blocking_primitives_spans[None, None, None, :, 0, :3]
    b = blocking_primitives_spans[None, None, None, :, 1, :3]
    n = blocking_primitives_normals[None, None, None, :, :3]
    dn = torch.sum(d * n, dim=-1)
    dn = torch.where(dn.abs() < epsilon, torch.where(dn >= 0, epsilon, -epsilon), dn)
    t = torch.sum((c - o) * n, dim=-1) / dn
    w = o + t[..., None] * d - c
    aa = torch.sum(a * a, dim=-1)
    bb = torch.sum(b * b, dim=-1)
    ab = torch.sum(a * b, dim=-1)
    wa = torch.sum(w * a, dim=-1)
    wb = torch.sum(w * b, dim=-1)
    det = aa * bb - ab * ab
    det = torch.where(det.abs() < epsilon, torch.sign(det) * epsilon, det)
    x = (wa * bb - wb * ab) / det
    y = (wb * aa - wa * ab) / det
    s = lambda z: torch.sigmoid(softness * z)
    hit = s(x) * s(1 - x) * (s(y) * s(1 - y)) * s(t - ray_origin_offset)
    return 1.0 - torch.exp(-(alpha * torch.sum(hit.clamp(0.0, 1.0), dim=-1)))
"""
BOX = """
    t0 = (aabb_min - ray_origins) * inverse_ray_directions
    t1 = (aabb_max - ray_origins) * inverse_ray_directions
    return torch.minimum(t0, t1).amax(dim=-1), torch.maximum(t0, t1).amin(dim=-1)
"""
FILTER = """
    device = get_device(device=device)
    tree = build_linear_bounding_volume_hierarchies(blocking_primitives_corners=blocking_primitives_corners, device=device)
    o = points_at_ray_origins[:, None, :, :3].expand(-1, ray_directions.shape[1], -1, -1).reshape(-1, 3)
    d = ray_directions[..., :3].reshape(-1, 3)
    reach = intersection_distances_target.reshape(-1)
    rays = o.shape[0]
    depth = compute_lbvh_max_depth(left=tree["left"], right=tree["right"])
    stack = torch.full((rays, depth), -1, dtype=torch.int32, device=device)
    stack[:, 0] = 0
    top = torch.ones(rays, dtype=torch.int32, device=device)
    kept = torch.zeros(blocking_primitives_corners.shape[0], dtype=torch.bool, device=device)
    inv = 1.0 / (d + 1e-12)
    todo = torch.arange(rays, device=device)
    while todo.numel() > 0:
        at = stack[todo, top[todo] - 1]
        top[todo] -= 1
        enter, leave = ray_aabb_intersect(o[todo], inv[todo], tree["aabb_min"][at], tree["aabb_max"][at])
        hit = (leave >= enter) & (leave > 1e-6) & (enter <= reach[todo])
        if hit.any():
            r = todo[hit]
            nodes = at[hit]
            leaf = tree["is_leaf"][nodes]
            if leaf.any():
                p = tree["primitive_index"][nodes[leaf]]
                kept[p[ray_to_heliostat_mapping[r[leaf]] != p]] = True
            if (~leaf).any():
                ri = r[~leaf]
                lc = tree["left"][nodes[~leaf]]
                rc = tree["right"][nodes[~leaf]]
                hl = lc >= 0
                hr = rc >= 0
                slot = top[ri].clone()
                ls = slot.clone()
                ls[~hl] = -1
                rs = slot + hl.to(torch.int32)
                rs[~hr] = -1
                if ((ls >= depth) & (ls != -1)).any() or ((rs >= depth) & (rs != -1)).any():
                    raise RuntimeError("overflow")
                if hl.any():
                    stack[ri[hl], ls[hl]] = lc[hl]
                    top[ri[hl]] = ls[hl] + 1
                if hr.any():
                    stack[ri[hr], rs[hr]] = rc[hr]
                    top[ri[hr]] = rs[hr] + 1
        todo = torch.nonzero(top > 0, as_tuple=True)[0]
    return torch.nonzero(kept, as_tuple=True)[0]
"""


def check(repo, R):
    R.rule("R06.rectangles", "each blocking heliostat is represented by the four aligned points nearest its outline corners, in circular order, with the two edge vectors from the first corner and their unit cross product as normal")
    R.rule("R06.mask", "the soft mask is one minus the exponential of the summed occlusion: a blocker counts where the ray crosses its parallelogram beyond the offset")
    R.rule("R06.box", "the box test returns the slab entry and exit distances")
    R.rule("R06.filter", "a blocker is kept iff a ray of another heliostat enters its box in front of the origin and before the target; every child of a hit node is visited")
    A = AlgL()
    three = ("corners", "spans", "normals")
    spec_compare(repo, R, "R06.rectangles", B + "create_blocking_primitives_rectangle", CREATE, names=three, A=A)
    spec_compare(repo, R, "R06.rectangles", B + "create_blocking_primitives_rectangles_by_index", BYINDEX, names=three, A=A)
    spec_compare(repo, R, "R06.mask", B + "soft_ray_blocking_mask", SOFT, A=A)
    spec_compare(repo, R, "R06.box", B + "ray_aabb_intersect", BOX, names=("entry", "exit"), A=A)
    opaque = tuple(B + x for x in ("build_linear_bounding_volume_hierarchies", "compute_lbvh_max_depth", "ray_aabb_intersect"))
    spec_compare(repo, R, "R06.filter", B + "lbvh_filter_blocking_planes", FILTER, A=A, opaque=opaque)

"""Target areas are addressed by one global index (planar areas first, then cylindrical).  Every place that resolves a global index, and the
mapping of heliostat/target names to indices, is compared with a reference body case by case."""
from ..loops import AlgL, Canon, attrs_compare, raise_condition, spec_compare
from ..q import *
from ..spec import equiv, explain
from ..vf import N, analyse

TOWER = "artist.field.solar_tower.SolarTower."
CENTERS = """
    idx = target_area_indices
    first = self.number_of_target_areas_per_type[0]
    P = idx < first
    out = torch.zeros((idx.shape[0], 4), device=device)
    c = self.target_areas[1]
    k = idx[~P] - first
    out[P] = self.target_areas[0].centers[idx[P]]
    out[~P] = c.centers[k] + c.radii[k][:, None] * c.normals[k]
    out[:, 3] = 1.0
    return out
"""
COORD = """
    first = solar_tower.number_of_target_areas_per_type[0]
    idx = target_area_indices
    P = idx < first
    en = (bitmap_coordinates[:, 0] + 0.5) / bitmap_resolution[0]
    un = (bitmap_coordinates[:, 1] + 0.5) / bitmap_resolution[1]
    out = torch.zeros((idx.numel(), 4), device=device)
    out[:, -1] = 1.0
    if P.any():
        t = solar_tower.target_areas[0]
        k = idx[P]
        out[P, :3] = t.centers[k][:, :3] + ((0.5 - en[P]) * t.dimensions[k][:, 0])[:, None] * torch.tensor([1.0, 0.0, 0.0], device=device).expand(k.numel(), 3) \\
            + ((0.5 - un[P]) * t.dimensions[k][:, 1])[:, None] * torch.tensor([0.0, 0.0, 1.0], device=device).expand(k.numel(), 3)
    if (~P).any():
        t = solar_tower.target_areas[1]
        k = idx[~P] - first
        n = t.normals[k][:, :3]
        a = t.axes[k][:, :3]
        th = (en[~P] - 0.5) * t.opening_angles[k].flatten()
        r = t.radii[k].flatten()[:, None]
        out[~P, :3] = t.centers[k][:, :3] + r * (torch.cos(th)[:, None] * n + torch.sin(th)[:, None] * torch.cross(a, n, dim=-1)) \\
            + ((0.5 - un[~P]) * t.heights[k].flatten())[:, None] * a
    return out
"""
PER_TARGET = """
    out = torch.zeros((int(self.scenario.solar_tower.number_of_target_areas_per_type.sum()), int(self.bitmap_resolution[1]), int(self.bitmap_resolution[0])), device=device)
    for i in range(int(self.scenario.solar_tower.number_of_target_areas_per_type.sum())):
        m = target_area_indices == i
        if m.any():
            out[i] = bitmaps_per_heliostat[m].sum(dim=0)
    return out
"""
DIMS = """
    tower = self.scenario.solar_tower
    t = tower.index_to_target_area[self.target_area_index][0]
    first = tower.number_of_target_areas_per_type[0]
    out = torch.empty(2, device=device)
    if self.target_area_index < first:
        out = t.dimensions[self.target_area_index]
    else:
        k = self.target_area_index - first
        out[0] = t.radii[k] * t.opening_angles[k]
        out[1] = t.heights[k]
    return out
"""
MAPPING = """
    device = get_device(device=device)
    names = heliostat_group.names
    known = self.solar_tower.target_name_to_index
    if single_incident_ray_direction is None:
        d0 = torch.tensor([0.0, 1.0, 0.0, 0.0], device=device)
    else:
        d0 = single_incident_ray_direction.to(device)
    if string_mapping is None:
        if (d0.shape != torch.Size([4]) or not torch.allclose(d0[3], torch.tensor(0.0, device=device), atol=1e-8)
                or not torch.allclose(torch.norm(d0[:3]), torch.tensor(1.0, device=device), rtol=1e-5, atol=1e-8)):
            raise ValueError("direction")
        if single_target_area_index < 0 or single_target_area_index >= len(known):
            raise ValueError("index")
        mask = torch.ones(heliostat_group.number_of_heliostats, dtype=torch.int32, device=device)
        targets = torch.tensor(single_target_area_index, dtype=torch.int32, device=device).expand(heliostat_group.number_of_heliostats)
        directions = d0.expand(heliostat_group.number_of_heliostats, -1).to(device)
    else:
        mine = [m for m in string_mapping if m[0] in names]
        problems = []
        for i, (h, t, d) in enumerate(mine):
            if t not in known:
                problems.append("the target")
            if (d.shape != torch.Size([4]) or not torch.allclose(d[3], torch.tensor(0.0, device=device), rtol=1e-2, atol=1e-2)
                    or not torch.allclose(torch.norm(d), torch.tensor(1.0, device=device), rtol=1e-4, atol=1e-4)):
                problems.append("the direction")
        if problems:
            raise ValueError("mapping")
        row = {n: i for i, n in enumerate(names)}
        mask = torch.zeros(heliostat_group.number_of_heliostats, dtype=torch.int32, device=device)
        targets = torch.empty(len(mine), dtype=torch.int32, device=device)
        directions = torch.empty((len(mine), 4), device=device)
        samples = defaultdict(list)
        for i, (h, t, d) in enumerate(mine):
            mask[row[h]] += 1
            samples[h].append([known[t], d])
        k = 0
        for n in names:
            for t, d in samples.get(n, []):
                targets[k] = t
                directions[k] = d
                k += 1
    return mask, targets, directions
"""


def check(repo, R):
    R.rule("R01.numbering", "global indices run over the planar areas, then the cylindrical ones, in the order of their names; counts are per type")
    R.rule("R01.resolve", "a global index below the planar count selects that planar area, any other the cylindrical area with the planar count subtracted")
    R.rule("R01.sum", "the bitmap of a target is the sum of the bitmaps of exactly the heliostats mapped to it")
    R.rule("R01.mapping", "activation counts, target indices and incident directions of a name mapping refer to the same samples, in group order; invalid ones raise")
    A = AlgL()
    attrs_compare(repo, R, "R01.numbering", TOWER + "__init__", """
    self.target_areas = target_areas
    self.number_of_target_area_types = len(target_areas)
    self.number_of_target_areas_per_type = torch.tensor([t.number_of_target_areas for t in target_areas], device=device)
    self.target_name_to_index = {}
    i = 0
    for t in target_areas:
        for name in t.names:
            self.target_name_to_index[name] = i
            i += 1
    self.index_to_target_area = []
    for t in target_areas:
        for k, _ in enumerate(t.names):
            self.index_to_target_area.append((t, k))
""", A=A)
    attrs_compare(repo, R, "R01.numbering", "artist.field.tower_target_areas.TowerTargetAreas.__init__", """
    self.names = names
    self.centers = centers
    self.normals = normals
    self.number_of_target_areas = len(names)
""", A=A)
    for c, extra in (("artist.field.tower_target_areas_planar.TowerTargetAreasPlanar", ("dimensions",)),
                     ("artist.field.tower_target_areas_cylindrical.TowerTargetAreasCylindrical", ("radii", "heights", "axes", "opening_angles"))):
        attrs_compare(repo, R, "R01.numbering", c + ".__init__", "".join(f"    self.{x} = {x}\n" for x in ("names", "centers", "normals") + extra) +
                      "    self.number_of_target_areas = len(names)\n", A=A)
    spec_compare(repo, R, "R01.numbering", TOWER + "from_hdf5", """
    p = TowerTargetAreasPlanar.from_hdf5(config_file=config_file, device=get_device(device=device))
    c = TowerTargetAreasCylindrical.from_hdf5(config_file=config_file, device=get_device(device=device))
    return cls(target_areas=[p, c], device=get_device(device=device))
""", A=A, opaque=("artist.field.tower_target_areas_planar.TowerTargetAreasPlanar.from_hdf5", "artist.field.tower_target_areas_cylindrical.TowerTargetAreasCylindrical.from_hdf5"))
    spec_compare(repo, R, "R01.resolve", TOWER + "get_centers_of_target_areas", CENTERS, A=A)
    spec_compare(repo, R, "R01.resolve", "artist.geometry.coordinates.bitmap_coordinates_to_target_coordinates", COORD, A=A)
    spec_compare(repo, R, "R01.resolve", "artist.optim.aim_point_optimizer.AimPointOptimizer._get_target_plane_dimensions", DIMS, A=A)
    spec_compare(repo, R, "R01.sum", "artist.raytracing.heliostat_ray_tracer.HeliostatRayTracer.get_bitmaps_per_target", PER_TARGET, A=A)
    q = "artist.scenario.scenario.Scenario.index_mapping"
    g, s = spec_compare(repo, R, "R01.mapping", q, MAPPING, names=("mask", "targets", "directions"), A=A)
    f = repo.func(q)
    x = equiv(A, raise_condition(g, A, Canon(g.interp, A)), raise_condition(s, A, Canon(s.interp, A)))
    R.ob("R01.mapping", "index_mapping.raises", x is None, f"{f.file}:{f.line}", "" if x is None else "condition of the error: " + explain(x)[:400])

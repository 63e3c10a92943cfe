"""NURBS evaluation: knot vectors, knot spans, basis functions, gathered control points, surface points and normals, grids.
Each function is compared, as a value-flow normal form including the axes it adds, with a reference body written after The NURBS Book (algorithms A2.1, A2.3, A3.6)."""
from __future__ import annotations

from ..flow import flow_compare, rc, store
from ..loops import AlgL, attrs_compare, spec_compare

S = "artist.nurbs.surfaces.NURBSSurfaces."
U = "artist.nurbs.utils."
INIT = """
    self.degrees = degrees
    self.control_points = control_points
    self.uniform = uniform
    self.number_of_surfaces = control_points.shape[0]
    self.number_of_facets_per_surface = control_points.shape[1]
    self.knot_vectors_u = self.calculate_uniform_knot_vectors(direction=0, device=device)
    self.knot_vectors_v = self.calculate_uniform_knot_vectors(direction=1, device=device)
"""
KNOTS = """
    p = self.degrees[direction].item()
    k = torch.zeros((self.control_points.shape[2 + direction] + p + 1,))
    n = k[p:-p].shape[0]
    k[:p] = 0
    k[p:-p] = torch.linspace(0, 1, n)
    k[-p:] = 1
    return k.unsqueeze(0).repeat(self.number_of_surfaces, self.number_of_facets_per_surface, 1)
"""
KNOTS_CAT = """
    p = self.degrees[direction].item()
    k = torch.cat((torch.zeros(p), torch.linspace(0, 1, self.control_points.shape[2 + direction] + 1 - p), torch.ones(p)))
    return k.unsqueeze(0).repeat(self.number_of_surfaces, self.number_of_facets_per_surface, 1)
"""
SPANS = """
    p = self.degrees[direction].item()
    x = evaluation_points[:, :, :, direction]
    if self.uniform:
        return torch.floor(x * (torch.unique(knot_vectors, dim=2).shape[2] - 1)).long() + p
    n = knot_vectors.shape[2] - p - 1
    pairs = []
    for i in range(p, n):
        pairs.append((knot_vectors[:, :, i], knot_vectors[:, :, i + 1]))
    low = torch.stack([t[0] for t in pairs], dim=2)
    high = torch.stack([t[1] for t in pairs], dim=2)
    inside = (x.unsqueeze(-1) >= low.unsqueeze(2)) & (x.unsqueeze(-1) < high.unsqueeze(2))
    last = torch.isclose(x, knot_vectors[:, :, n].unsqueeze(2), atol=1e-5, rtol=1e-5)
    s = inside.int().argmax(dim=-1) + p
    return torch.where(last, torch.full_like(s, n - 1), s)
"""
SPANS_SLICE = SPANS[:SPANS.index("    pairs = []")] + """
    low = knot_vectors[:, :, p:n]
    high = knot_vectors[:, :, p + 1:n + 1]
""" + SPANS[SPANS.index("    inside ="):]
BASIS = """
    p = self.degrees[direction].item()
    x = evaluation_points[:, :, :, direction]
    m = x.shape[2]
    size = (self.number_of_surfaces, self.number_of_facets_per_surface, m)
    ndu = torch.zeros((p + 1, p + 1, self.number_of_surfaces, self.number_of_facets_per_surface, m))
    ndu[0, 0] = 1.0
    left = torch.zeros((p + 1, self.number_of_surfaces, self.number_of_facets_per_surface, m))
    right = torch.zeros((p + 1, self.number_of_surfaces, self.number_of_facets_per_surface, m))
    for j in range(1, p + 1):
        left[j] = x - torch.gather(knot_vectors, 2, spans - j + 1)
        right[j] = torch.gather(knot_vectors, 2, spans + j) - x
        saved = torch.zeros(size)
        for r in range(j):
            ndu[j][r] = right[r + 1] + left[j - r]
            tmp = ndu[r][j - 1] / ndu[j][r]
            ndu[r][j] = saved + right[r + 1] * tmp
            saved = left[j - r] * tmp
        ndu[j][j] = saved
    derivatives = [[torch.zeros(size) for _ in range(p + 1)] for _ in range(nth_derivative + 1)]
    for j in range(p + 1):
        derivatives[0][j] = ndu[j][p]
    a = [[torch.zeros(size) for _ in range(p + 1)] for _ in range(2)]
    for r in range(p + 1):
        s1 = 0
        s2 = 1
        a[0][0] = torch.ones_like(a[0][0])
        for k in range(1, nth_derivative + 1):
            d = torch.zeros(size)
            rk = r - k
            pk = p - k
            if r >= k:
                a[s2][0] = a[s1][0] / ndu[pk + 1][rk]
                d = a[s2][0] * ndu[rk][pk]
            j1 = 1 if rk >= -1 else -rk
            j2 = k - 1 if r - 1 <= pk else p - r
            for j in range(j1, j2 + 1):
                a[s2][j] = (a[s1][j] - a[s1][j - 1]) / ndu[pk + 1][rk + j]
                d += a[s2][j] * ndu[rk + j][pk]
            if r <= pk:
                a[s2][k] = -a[s1][k - 1] / ndu[pk + 1][r]
                d += a[s2][k] * ndu[r][pk]
            derivatives[k][r] = d
            j = s1
            s1 = s2
            s2 = j
    r = p
    for k in range(1, nth_derivative + 1):
        for j in range(p + 1):
            derivatives[k][j] *= r
        r *= p - k
    return derivatives
"""
GATHER = """
    size = (self.number_of_surfaces, self.number_of_facets_per_surface, index_u.shape[2])
    surface = torch.arange(self.number_of_surfaces).view(self.number_of_surfaces, 1, 1).expand(size[0], size[1], size[2])
    facet = torch.arange(self.number_of_facets_per_surface).view(1, self.number_of_facets_per_surface, 1).expand(size[0], size[1], size[2])
    return control_points[surface, facet, index_u, index_v]
"""
POINTS = """
    n = 1
    spans_u = self.find_spans(direction=0, evaluation_points=evaluation_points, knot_vectors=self.knot_vectors_u)
    spans_v = self.find_spans(direction=1, evaluation_points=evaluation_points, knot_vectors=self.knot_vectors_v)
    weights = torch.ones((self.number_of_surfaces, self.number_of_facets_per_surface, self.control_points.shape[2], self.control_points.shape[3], 1))
    control_points = torch.cat([self.control_points, weights], dim=4)
    derivatives = torch.zeros(self.number_of_surfaces, self.number_of_facets_per_surface, evaluation_points.shape[2], n + 1, n + 1, control_points.shape[4])
    du = min(n, self.degrees[0])
    for k in range(self.degrees[0] + 1, n + 1):
        for t in range(n - k + 1):
            derivatives[:, :, :, k, t] = 0
    dv = min(n, self.degrees[1])
    for t in range(self.degrees[1] + 1, n + 1):
        for k in range(n - t + 1):
            derivatives[:, :, :, k, t] = 0
    bu = self.basis_functions_and_derivatives(direction=0, evaluation_points=evaluation_points, knot_vectors=self.knot_vectors_u, spans=spans_u, nth_derivative=du)
    bv = self.basis_functions_and_derivatives(direction=1, evaluation_points=evaluation_points, knot_vectors=self.knot_vectors_v, spans=spans_v, nth_derivative=dv)
    temp = [torch.zeros((self.number_of_surfaces, self.number_of_facets_per_surface, evaluation_points.shape[2], control_points.shape[4])) for _ in range(self.degrees[1] + 1)]
    for k in range(du + 1):
        for s in range(self.degrees[1] + 1):
            temp[s] = torch.zeros_like(temp[s])
            for r in range(self.degrees[0] + 1):
                temp[s] += bu[k][r].unsqueeze(-1) * self._batched_gather_control_points(control_points=control_points, index_u=spans_u - self.degrees[0] + r,
                    index_v=spans_v - self.degrees[1] + s)
        for t in range(min(n - k, dv) + 1):
            derivatives[:, :, :, k, t] = 0
            for s in range(self.degrees[1] + 1):
                derivatives[:, :, :, k, t] += bv[t][s].unsqueeze(-1) * temp[s]
    normals = torch.linalg.cross(derivatives[:, :, :, 1, 0, :3], derivatives[:, :, :, 0, 1, :3])
    h = derivatives[:, :, :, 0, 0]
    points = h[:, :, :, :3] / h[:, :, :, 3:4]
    points = torch.cat((points, torch.ones(tuple(points.shape[:3]) + (1,))), dim=3)
    normals = torch.nn.functional.normalize(normals, dim=3)
    normals = torch.cat((normals, torch.zeros(tuple(normals.shape[:3]) + (1,))), dim=3)
    if canting is not None:
        moved = perform_canting(canting_angles=canting, data=points) + facet_translations.reshape(self.number_of_surfaces, self.number_of_facets_per_surface, 1, 4)
        return moved, perform_canting(canting_angles=canting, data=normals)
    return points, normals
"""
GRID = """
    e = torch.linspace(epsilon, 1 - epsilon, int(number_of_evaluation_points[0].item()))
    n = torch.linspace(epsilon, 1 - epsilon, int(number_of_evaluation_points[1].item()))
    return torch.cartesian_prod(e, n)
"""
PLANAR = """
    nu = int(number_of_control_points[0].item())
    nv = int(number_of_control_points[1].item())
    c = torch.zeros((canting.shape[0], nu, nv, 3), dtype=canting.dtype)
    half = torch.norm(canting, dim=2)
    c[..., 0] = (-half[:, 0, None] + 2 * half[:, 0, None] * torch.linspace(0, 1, nu))[:, :, None]
    c[..., 1] = (-half[:, 1, None] + 2 * half[:, 1, None] * torch.linspace(0, 1, nv))[:, None, :]
    return c
"""
HELIOSTAT = """
    facets = self.nurbs_surface.number_of_facets_per_surface
    grid = create_nurbs_evaluation_grid(number_of_evaluation_points=number_of_points_per_facet).unsqueeze(0).unsqueeze(0).expand(1, facets, -1, -1)
    if torch.all(self.nurbs_surface.control_points[..., 2] == 0):
        points, normals = self.nurbs_surface.calculate_surface_points_and_normals(evaluation_points=grid, canting=canting.unsqueeze(0),
                                                                                  facet_translations=facet_translations.unsqueeze(0), device=device)
    else:
        points, normals = self.nurbs_surface.calculate_surface_points_and_normals(evaluation_points=grid, canting=None, facet_translations=None, device=device)
    return points, normals
"""
UPDATE = """
    for group in self.heliostat_groups:
        m = int(math.sqrt(group.surface_points.shape[1] / group.number_of_facets_per_heliostat))
        grid = create_nurbs_evaluation_grid(number_of_evaluation_points=torch.tensor([m, m])).unsqueeze(0).unsqueeze(0).expand(
            group.number_of_heliostats, group.number_of_facets_per_heliostat, -1, -1)
        surfaces = NURBSSurfaces(degrees=group.nurbs_degrees, control_points=group.nurbs_control_points.detach())
        points, normals = surfaces.calculate_surface_points_and_normals(evaluation_points=grid, canting=group.canting, facet_translations=group.facet_translations)
        group.surface_points = points.reshape(group.surface_points.shape[0], -1, 4).detach()
        group.surface_normals = normals.reshape(group.surface_points.shape[0], -1, 4).detach()
"""


def check(repo, R):
    A = AlgL()
    R.rule("R07.basis", "knot vectors are clamped and uniform in the direction's own degree and number of control points; every evaluation point lies in its own knot span; "
           "basis functions and first derivatives follow the recurrence over the knots around that span")
    R.rule("R07.surface", "a surface point is the sum of the control points of its own surface and facet around its spans, weighted by the basis functions of its u and v coordinate; "
           "the normal is the normalised cross product of the u and the v derivative; canting turns both, the facet translation moves the points only")
    R.rule("R07.grids", "evaluation grids cover the inside of the unit square, planar control points the facet, with the first number counting u and the second v")
    attrs_compare(repo, R, "R07.basis", S + "__init__", INIT, A=A)
    spec_compare(repo, R, "R07.basis", S + "calculate_uniform_knot_vectors", [KNOTS, KNOTS_CAT], A=A, layout=True)
    spec_compare(repo, R, "R07.basis", S + "find_spans", [SPANS, SPANS_SLICE], A=A, layout=True)
    spec_compare(repo, R, "R07.basis", S + "basis_functions_and_derivatives", BASIS, A=A, layout=True)
    spec_compare(repo, R, "R07.surface", S + "_batched_gather_control_points", GATHER, A=A, layout=True, inline=())
    spec_compare(repo, R, "R07.surface", S + "calculate_surface_points_and_normals", POINTS, names=("points", "normals"), A=A, layout=True)
    spec_compare(repo, R, "R07.surface", S + "forward", """
    return self.calculate_surface_points_and_normals(evaluation_points=evaluation_points, canting=canting, facet_translations=facet_translations, device=device)
""", A=A, layout=True)
    spec_compare(repo, R, "R07.grids", U + "create_nurbs_evaluation_grid", GRID, A=A, layout=True)
    spec_compare(repo, R, "R07.grids", U + "create_planar_nurbs_control_points", PLANAR, A=A, layout=True)
    R.rule("R07.owners", "a loaded heliostat's surface and the surfaces of a whole field are evaluated on the facet grid of the given size from their own control points; flat control nets are "
           "canted and moved, fitted ones are not; a field update replaces points and normals of every group")
    spec_compare(repo, R, "R07.owners", "artist.field.surface.Surface.get_surface_points_and_normals", HELIOSTAT, names=("points", "normals"), A=A, layout=True)
    for what in ("points", "normals"):
        flow_compare(repo, R, "R07.owners", "update." + what, "artist.field.heliostat_field.HeliostatField.update_surfaces", UPDATE,
                     [("evaluation", rc("calculate_surface_points_and_normals")), (what, store("surface_" + what))], A=A)
    R.floor("R07.owners", 8)
    R.floor("R07.basis", 9)
    R.floor("R07.surface", 4)
    R.floor("R07.grids", 2)

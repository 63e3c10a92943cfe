"""Generated heliostat surfaces: which points, normals, canting and translation every generated facet is made from.
The generators are compared, on all paths and over all facets and fit epochs, with reference bodies; the fit protocol (parameters given to the optimizer, order of
evaluation, backward pass, optimizer and scheduler step, stopping) is compared call by call."""
from __future__ import annotations

from ..flow import flow_compare, op, rc
from ..loops import AlgL, attrs_compare, raise_condition, spec_compare, Canon
from ..spec import spec_graph
from ..vf import analyse

G = "artist.scenario.surface_generator.SurfaceGenerator."
INIT = """
    device = get_device(device=device)
    self.number_of_control_points = number_of_control_points.to(device)
    self.degrees = degrees.to(device)
"""
FIT = """
    if fit_method not in ["point_cloud", "deflectometry"]:
        raise NotImplementedError()
    device = get_device(device=device)
    points = surface_points.clone()
    points[:, 2] = 0
    control = torch.zeros((1, 1, self.number_of_control_points[0], self.number_of_control_points[1], 3), device=device)
    width = torch.max(points[:, 0]) - torch.min(points[:, 0])
    height = torch.max(points[:, 1]) - torch.min(points[:, 1])
    e, n = torch.meshgrid(
        torch.linspace(-width / 2, width / 2, self.number_of_control_points[0], device=device),
        torch.linspace(-height / 2, height / 2, self.number_of_control_points[1], device=device), indexing="ij")
    control[:, :, :, :, 0] = e
    control[:, :, :, :, 1] = n
    control[:, :, :, :, 2] = 0
    points[:, :2] = coordinates.normalize_points(points[:, :2])
    points = points.unsqueeze(0).unsqueeze(0)
    surface = NURBSSurfaces(degrees=self.degrees, control_points=control, device=device)
    optimizer.param_groups.clear()
    optimizer.add_param_group({"params": surface.control_points.requires_grad_()})
    loss = torch.inf
    epoch = 0
    while loss > tolerance and epoch <= max_epoch:
        p, n = surface.calculate_surface_points_and_normals(evaluation_points=points, canting=None, facet_translations=None, device=device)
        optimizer.zero_grad()
        if fit_method == "point_cloud":
            loss = torch.nn.MSELoss()(p, surface_points.unsqueeze(0).unsqueeze(0))
        else:
            loss = torch.nn.MSELoss()(n, surface_normals.unsqueeze(0).unsqueeze(0))
        loss.backward()
        optimizer.step()
        if isinstance(scheduler, torch.optim.lr_scheduler.ReduceLROnPlateau):
            scheduler.step(loss.abs().mean().detach())
        elif scheduler:
            scheduler.step()
        epoch += 1
    return surface
"""
FITTED = """
    n = min(p.shape[0] for p in surface_points_with_facets_list)
    points = torch.stack([p[:n] for p in surface_points_with_facets_list])
    m = min(p.shape[0] for p in surface_normals_with_facets_list)
    normals = torch.stack([p[:m] for p in surface_normals_with_facets_list])
    points = points[:, ::deflectometry_step_size]
    normals = normals[:, ::deflectometry_step_size]
    if fit_method == "point_cloud":
        facet_translation_vectors = torch.zeros(facet_translation_vectors.shape, device=device)
    points = coordinates.convert_3d_points_to_4d_format(points, device=device)
    normals = coordinates.convert_3d_directions_to_4d_format(normals, device=device)
    facets = []
    for i in range(points.shape[0]):
        nurbs = self.fit_nurbs(surface_points=points[i], surface_normals=normals[i], optimizer=optimizer, scheduler=scheduler, fit_method=fit_method,
            tolerance=tolerance, max_epoch=max_epoch, device=device)
        facets.append(FacetConfig(facet_key=f"facet_{i + 1}", control_points=(nurbs.control_points[0, 0] + facet_translation_vectors[i, :3]).detach(), degrees=nurbs.degrees,
            translation_vector=facet_translation_vectors[i], canting=canting[i]))
    return SurfaceConfig(facet_list=facets)
"""
IDEAL = """
    control = create_planar_nurbs_control_points(number_of_control_points=self.number_of_control_points, canting=canting, device=device)
    facets = []
    for i in range(facet_translation_vectors.shape[0]):
        facets.append(FacetConfig(facet_key=f"facet_{i + 1}", control_points=control[i], degrees=self.degrees,
            translation_vector=facet_translation_vectors[i], canting=canting[i]))
    return SurfaceConfig(facet_list=facets)
"""


def check(repo, R):
    A = AlgL()
    R.rule("S04.fit", "a facet is fitted by the given optimizer to its own points or normals, starting from a plane of the facet's size; each epoch evaluates, resets gradients, differentiates, steps optimizer and "
           "scheduler once; other methods are refused")
    R.rule("S04.facets", "facet i of a surface has the control points, degrees, translation and canting of facet i")
    attrs_compare(repo, R, "S04.fit", G + "__init__", INIT, A=A)
    g, s = spec_compare(repo, R, "S04.fit", G + "fit_nurbs", FIT, names=("surface",), A=A, layout=True)
    f = repo.func(G + "fit_nurbs")
    a, b = raise_condition(g, A, Canon(g.interp, A)), raise_condition(s, A, Canon(s.interp, A))
    R.ob("S04.fit", "fit_nurbs.refused", a == b, f"{f.file}:{f.line}", "" if a == b else f"refused when {a} expected {b}")
    flow_compare(repo, R, "S04.fit", "fit", G + "fit_nurbs", FIT, [
        ("cleared parameters", op("clear")),
        ("parameters", op("add_param_group")),
        ("evaluation", rc("calculate_surface_points_and_normals")),
        ("gradient reset", op("zero_grad")),
        ("objective", op("backward")),
        ("step", op("step")),
    ])
    # the number of epochs and the stopping test
    loops(R, A, g, s, f)
    spec_compare(repo, R, "S04.facets", G + "generate_fitted_surface_config", FITTED, A=A, layout=True, opaque=(G + "fit_nurbs",))
    spec_compare(repo, R, "S04.facets", G + "generate_ideal_surface_config", IDEAL, A=A, layout=True)
    R.floor("S04.fit", 20)
    R.floor("S04.facets", 2)


def loops(R, A, g, s, f):
    cg, cs = Canon(g.interp, A), Canon(s.interp, A)
    a = sorted((cg.exit(i) for i in g.interp.loopinfo.values() if i["test"] is not None), key=lambda n: n._id)
    b = sorted((cs.exit(i) for i in s.interp.loopinfo.values() if i["test"] is not None), key=lambda n: n._id)
    R.ob("S04.fit", "fit_nurbs.stopping", a == b, f"{f.file}:{f.line}", "" if a == b else "the fit loop ends under another condition")

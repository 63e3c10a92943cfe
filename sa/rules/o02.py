"""Reconstruction from calibration data: which sample, heliostat and parameter every quantity belongs to.  For kinematic (ray tracing and alignment) and
surface reconstruction, the calls that activate, align, trace, crop and evaluate losses, the differentiated objective, the validation and the loss
reported per heliostat are compared, on all paths and over the epochs, with a reference body (one rank; ranks are D01, the loop protocol O01)."""
from __future__ import annotations

from ..flow import flow_compare, op, optimizer_step, rc, store
from ..loops import attrs_compare, spec_compare

K = "artist.optim.kinematics_reconstructor.KinematicsReconstructor."
S = "artist.optim.surface_reconstructor.SurfaceReconstructor."
TR = "artist.optim.training."
HEAD = """
    field = self.scenario.heliostat_field
    final = torch.full((field.number_of_heliostats_per_group.sum(),), torch.inf)
    first = torch.cat([torch.tensor([0]), field.number_of_heliostats_per_group.cumsum(0)])
    history = []
    for number in self.ddp_setup["groups_to_ranks_mapping"][self.ddp_setup["rank"]]:
        group = field.heliostat_groups[number]
        flux, spots, rays, motors, mask, targets = self.data["data_parser"].parse_data_for_reconstruction(
            heliostat_data_mapping=self.data["heliostat_data_mapping"], heliostat_group=group, scenario=self.scenario, bitmap_resolution=self.bitmap_resolution)
        if mask.sum() > 0:
            split = training.train_test_split(active_heliostats_mask=mask, flux_measured=flux, focal_spots_measured=spots, incident_ray_directions=rays,
                motor_positions=motors, target_area_indices=targets)
            per = split.number_of_train_samples
"""
STOP = """
            stopper = training.EarlyStopping(window_size=self.optimizer_dict["early_stopping_window"], patience=self.optimizer_dict["early_stopping_patience"],
                min_improvement=self.optimizer_dict["early_stopping_delta"], relative=True)
            loss = torch.inf
            epoch = 0
            log_step = self.optimizer_dict["max_epoch"] if self.optimizer_dict["log_step"] == 0 else self.optimizer_dict["log_step"]
            while loss > float(self.optimizer_dict["tolerance"]) and epoch <= self.optimizer_dict["max_epoch"]:
"""
KOPT = """
            optimizer = torch.optim.Adam([{"params": group.kinematics.rotation_deviation_parameters.requires_grad_(),
                "lr": self.optimizer_dict["initial_learning_rate_rotation_deviation"]}])
            losses = []
"""
KTEST = """
                stop = stopper.step(loss.item())
                if epoch % log_step == 0 or epoch == self.optimizer_dict["max_epoch"] - 1 or stop:
                    group.activate_heliostats(active_heliostats_mask=split.active_heliostats_mask_test)
                    group.align_surfaces_with_motor_positions(motor_positions=split.motor_positions_test, active_heliostats_mask=split.active_heliostats_mask_test)
                    tracer = HeliostatRayTracer(scenario=self.scenario, heliostat_group=group, blocking_active=False, batch_size=self.optimizer_dict["batch_size"],
                        dni=self.dni, bitmap_resolution=self.bitmap_resolution)
                    bitmaps, _, _, _ = tracer.trace_rays(incident_ray_directions=split.incident_ray_directions_test,
                        active_heliostats_mask=split.active_heliostats_mask_test, target_area_indices=split.target_area_indices_test)
                    rows = tracer.get_sampler_indices()
                    a = self.validation_loss_focal_spot(prediction=bitmaps, ground_truth=split.flux_measured_test[rows], target_area_indices=split.target_area_indices_test[rows])
                    b = self.validation_loss_pixel(prediction=bitmaps, ground_truth=split.flux_measured_test[rows], reduction_dimensions=(1, 2))
                    c = self.validation_loss_kl_div(prediction=bitmaps, ground_truth=split.flux_measured_test[rows], reduction_dimensions=(1, 2))
                    a = reduce_loss_per_sample(loss_per_sample=a, number_of_samples_per_heliostat=split.number_of_test_samples, reduction=REDUCE)
                    b = reduce_loss_per_sample(loss_per_sample=b, number_of_samples_per_heliostat=split.number_of_test_samples, reduction=REDUCE)
                    c = reduce_loss_per_sample(loss_per_sample=c, number_of_samples_per_heliostat=split.number_of_test_samples, reduction=REDUCE)
                    test = {"pixel_loss": b, "kl_div": c, "focal_spot_loss": a}
                if stop:
                    break
                losses.append(loss.detach().cpu().item())
                epoch += 1
            history.append({"total_loss": losses, "test_loss": test})
"""
KEND = """
    for group in field.heliostat_groups:
        group.kinematics.rotation_deviation_parameters = group.kinematics.rotation_deviation_parameters.detach()
    return final, [history]
"""
KRAY = HEAD + KOPT + STOP + """
                group.activate_heliostats(active_heliostats_mask=split.active_heliostats_mask_train)
                group.align_surfaces_with_motor_positions(motor_positions=split.motor_positions_train, active_heliostats_mask=split.active_heliostats_mask_train)
                tracer = HeliostatRayTracer(scenario=self.scenario, heliostat_group=group, blocking_active=False, world_size=self.ddp_setup["heliostat_group_world_size"],
                    rank=self.ddp_setup["heliostat_group_rank"], batch_size=self.optimizer_dict["batch_size"], random_seed=self.ddp_setup["heliostat_group_rank"],
                    dni=self.dni, bitmap_resolution=self.bitmap_resolution)
                bitmaps, _, _, _ = tracer.trace_rays(incident_ray_directions=split.incident_ray_directions_train,
                    active_heliostats_mask=split.active_heliostats_mask_train, target_area_indices=split.target_area_indices_train)
                own = tracer.get_sampler_indices()
                each = loss_definition(prediction=bitmaps, ground_truth=split.flux_measured_train[own], target_area_indices=split.target_area_indices_train[own],
                    reduction_dimensions=(1, 2))
                per_heliostat = reduce_loss_per_sample(loss_per_sample=each, number_of_samples_per_heliostat=per, reduction=partial(torch.median, dim=1))
                loss = torch.mean(per_heliostat)
                if per_heliostat.numel() > 0:
                    loss.backward()
                loss = training.average_loss_within_heliostat_group(loss_per_heliostat=per_heliostat, ddp_setup=self.ddp_setup)
                optimizer.step()
""" + KTEST.replace("REDUCE", "partial(torch.median, dim=1)") + """
            final[torch.nonzero(mask != 0, as_tuple=True)[0][own[::per] // per] + first[number]] = per_heliostat
""" + KEND
KALI = HEAD + """
            reflected = torch.nn.functional.normalize(spots[:, :3] - group.positions.repeat_interleave(mask, dim=0)[:, :3], p=2, dim=1)
            normals = coordinates.convert_3d_directions_to_4d_format(torch.nn.functional.normalize(reflected - rays[:, :3], dim=-1))
""" + KOPT + STOP + """
                group.activate_heliostats(active_heliostats_mask=split.active_heliostats_mask_train)
                orientations = group.kinematics.motor_positions_to_orientations(motor_positions=split.motor_positions_train)
                each = loss_definition(prediction=orientations @ torch.tensor([0.0, 0.0, 1.0, 0.0]), ground_truth=normals[split.train_indices])
                per_heliostat = reduce_loss_per_sample(loss_per_sample=each, number_of_samples_per_heliostat=per, reduction=partial(torch.mean, dim=-1))
                loss = torch.mean(per_heliostat)
                loss.backward()
                optimizer.step()
""" + KTEST.replace("REDUCE", "partial(torch.mean, dim=-1)") + """
            final[torch.nonzero(mask != 0, as_tuple=True)[0] + first[number]] = per_heliostat
""" + KEND


def indent(t):
    return "\n".join("    " + x if x.strip() else x for x in t.splitlines())


def both():
    return f"""
    if self.reconstruction_method == "{{ray}}":
{indent(KRAY)}
    elif self.reconstruction_method == "{{ali}}":
{indent(KALI)}
    return losses_all, histories
""".replace("return final, [history]", "losses_all, histories = final, [history]")


SURF = HEAD + """
            grid = create_nurbs_evaluation_grid(number_of_evaluation_points=self.number_of_surface_points).unsqueeze(0).unsqueeze(1).expand(
                int(mask.sum()), group.number_of_facets_per_heliostat, -1, -1)
            original = group.nurbs_control_points[mask > 0].clone()
            optimizer = torch.optim.Adam([group.nurbs_control_points.requires_grad_()], lr=float(self.optimizer_dict["initial_learning_rate"]))
            reference = torch.zeros_like(mask)
            multiplier = 0.0
            rho = self.constraint_dict["rho_flux_integral"]
            allowed = self.constraint_dict["energy_tolerance"]
            ideal = IdealSurfaceRegularizer(reduction_dimensions=(1,))
            smooth = SmoothnessRegularizer(reduction_dimensions=(1,))
            w_smooth, w_ideal = self.constraint_dict["weight_smoothness"], self.constraint_dict["weight_ideal_surface"]
            h1, h2, h3, h4, h5, h6 = [], [], [], [], [], []
""" + STOP + """
                group.activate_heliostats(active_heliostats_mask=split.active_heliostats_mask_train)
                surfaces = NURBSSurfaces(degrees=group.nurbs_degrees, control_points=group.active_nurbs_control_points)
                points, normals = surfaces.calculate_surface_points_and_normals(evaluation_points=grid[split.train_indices], canting=group.active_canting,
                    facet_translations=group.active_facet_translations)
                group.active_surface_points = points.reshape(group.active_surface_points.shape[0], -1, 4)
                group.active_surface_normals = normals.reshape(group.active_surface_normals.shape[0], -1, 4)
                group.align_surfaces_with_incident_ray_directions(
                    aim_points=self.scenario.solar_tower.get_centers_of_target_areas(target_area_indices=split.target_area_indices_train),
                    incident_ray_directions=split.incident_ray_directions_train, active_heliostats_mask=split.active_heliostats_mask_train)
                tracer = HeliostatRayTracer(scenario=self.scenario, heliostat_group=group, blocking_active=False, world_size=self.ddp_setup["heliostat_group_world_size"],
                    rank=self.ddp_setup["heliostat_group_rank"], batch_size=self.optimizer_dict["batch_size"], random_seed=self.ddp_setup["heliostat_group_rank"],
                    bitmap_resolution=self.bitmap_resolution, dni=self.dni)
                bitmaps, _, _, _ = tracer.trace_rays(incident_ray_directions=split.incident_ray_directions_train,
                    active_heliostats_mask=split.active_heliostats_mask_train, target_area_indices=split.target_area_indices_train)
                own = tracer.get_sampler_indices()
                cropped = bitmap.crop_flux_distributions_around_center(flux_distributions=bitmaps, solar_tower=self.scenario.solar_tower,
                    target_area_indices=split.target_area_indices_train[own])
                own_heliostats = own[::per] // per
                each = loss_definition(prediction=cropped, ground_truth=split.flux_measured_train[own], target_area_indices=split.target_area_indices_train[own],
                    reduction_dimensions=(1, 2))
                per_heliostat = reduce_loss_per_sample(loss_per_sample=each, number_of_samples_per_heliostat=per, reduction=partial(torch.mean, dim=-1))
                if epoch == 0:
                    reference = cropped.sum(dim=(1, 2)).detach()
                change = (cropped.sum(dim=(1, 2)) - reference) / (reference + torch.tensor(self.epsilon))
                missing = reduce_loss_per_sample(loss_per_sample=torch.clamp(-allowed - change, min=0.0), number_of_samples_per_heliostat=per,
                    reduction=partial(torch.mean, dim=-1))
                constraint = multiplier * missing + 0.5 * rho * missing**2
                smoothness = torch.zeros_like(per_heliostat)
                ideality = torch.zeros_like(per_heliostat)
                if w_smooth > 0:
                    smoothness = smooth(current_control_points=group.active_nurbs_control_points[::per][own_heliostats], original_control_points=original[own_heliostats])
                if w_ideal > 0:
                    ideality = ideal(current_control_points=group.active_nurbs_control_points[::per][own_heliostats], original_control_points=original[own_heliostats])
                alpha = w_smooth * per_heliostat.mean() / (smoothness.mean() + torch.tensor(self.epsilon))
                beta = w_ideal * per_heliostat.mean() / (ideality.mean() + torch.tensor(self.epsilon))
                total = per_heliostat + constraint + alpha * smoothness + beta * ideality
                loss = torch.mean(total)
                if total.numel() > 0:
                    loss.backward()
                multiplier = torch.clamp(multiplier + rho * missing, min=0.0)
                optimizer.param_groups[0]["params"][0].grad = self.lock_control_points_on_outer_edges(gradients=optimizer.param_groups[0]["params"][0].grad)
                loss = training.average_loss_within_heliostat_group(loss_per_heliostat=total, ddp_setup=self.ddp_setup)
                optimizer.step()
                stop = stopper.step(loss.item())
                if epoch % log_step == 0 or epoch == self.optimizer_dict["max_epoch"] - 1 or stop:
                    group.activate_heliostats(active_heliostats_mask=split.active_heliostats_mask_test)
                    surfaces = NURBSSurfaces(degrees=group.nurbs_degrees, control_points=group.active_nurbs_control_points)
                    points, normals = surfaces.calculate_surface_points_and_normals(evaluation_points=grid[split.test_indices], canting=group.active_canting,
                        facet_translations=group.active_facet_translations)
                    group.active_surface_points = points.reshape(group.active_surface_points.shape[0], -1, 4)
                    group.active_surface_normals = normals.reshape(group.active_surface_normals.shape[0], -1, 4)
                    group.align_surfaces_with_incident_ray_directions(
                        aim_points=self.scenario.solar_tower.get_centers_of_target_areas(target_area_indices=split.target_area_indices_test),
                        incident_ray_directions=split.incident_ray_directions_test, active_heliostats_mask=split.active_heliostats_mask_test)
                    tracer = HeliostatRayTracer(scenario=self.scenario, heliostat_group=group, blocking_active=False, world_size=self.ddp_setup["heliostat_group_world_size"],
                        rank=self.ddp_setup["heliostat_group_rank"], batch_size=self.optimizer_dict["batch_size"], random_seed=self.ddp_setup["heliostat_group_rank"],
                        dni=self.dni, bitmap_resolution=self.bitmap_resolution)
                    bitmaps, _, _, _ = tracer.trace_rays(incident_ray_directions=split.incident_ray_directions_test,
                        active_heliostats_mask=split.active_heliostats_mask_test, target_area_indices=split.target_area_indices_test)
                    rows = tracer.get_sampler_indices()
                    cut = bitmap.crop_flux_distributions_around_center(flux_distributions=bitmaps, solar_tower=self.scenario.solar_tower,
                        target_area_indices=split.target_area_indices_test[rows])
                    b = self.validation_loss_pixel(prediction=cut, ground_truth=split.flux_measured_test[rows], reduction_dimensions=(1, 2))
                    c = self.validation_loss_kl_div(prediction=cut, ground_truth=split.flux_measured_test[rows], reduction_dimensions=(1, 2))
                    b = reduce_loss_per_sample(loss_per_sample=b, number_of_samples_per_heliostat=split.number_of_test_samples, reduction=partial(torch.mean, dim=-1))
                    c = reduce_loss_per_sample(loss_per_sample=c, number_of_samples_per_heliostat=split.number_of_test_samples, reduction=partial(torch.mean, dim=-1))
                    test = {"pixel_loss": b, "kl_div": c}
                if stop:
                    break
                h1.append(loss.detach().cpu().item())
                h2.append(per_heliostat.mean().detach().cpu().item())
                h3.append(change.mean().detach().cpu().item())
                h4.append((alpha * smoothness).mean().detach().cpu().item())
                h5.append((beta * ideality).mean().detach().cpu().item())
                h6.append(constraint.mean().detach().cpu().item())
                epoch += 1
            history.append({"total_loss": h1, "flux_loss": h2, "smoothness_regularizer": h4, "ideal_regularizer": h5, "flux_integral": h3,
                "flux_integral_constraint": h6, "test_loss": test})
            final[torch.nonzero(mask != 0, as_tuple=True)[0][own_heliostats] + first[number]] = total
    for group in field.heliostat_groups:
        group.nurbs_control_points = group.nurbs_control_points.detach()
    field.update_surfaces()
    return final, [history]
"""
COMMON = [
    ("data", rc("parse_data_for_reconstruction")),
    ("split", rc("train_test_split")),
    ("activate", rc("HeliostatGroup.activate_heliostats")),
    ("tracer", rc("HeliostatRayTracer")),
    ("trace", rc("trace_rays")),
    ("loss", rc("Loss.__call__")),
    ("reduction", rc("reduce_loss_per_sample")),
    ("objective", op("backward")),
    ("step", optimizer_step),
]
KIN = COMMON + [("alignment", rc("align_surfaces_with_motor_positions")), ("orientation", rc("motor_positions_to_orientations")),
                ("parameters", store("rotation_deviation_parameters")),
                ("focal spot loss", rc("FocalSpotLoss.__call__")), ("pixel loss", rc("PixelLoss.__call__")), ("divergence loss", rc("KLDivergenceLoss.__call__"))]
SUR = COMMON + [("surface", rc("NURBSSurfaces")), ("evaluation", rc("calculate_surface_points_and_normals")), ("points", store("active_surface_points")),
                ("normals", store("active_surface_normals")), ("alignment", rc("align_surfaces_with_incident_ray_directions")),
                ("crop", rc("crop_flux_distributions_around_center")), ("smoothness", rc("SmoothnessRegularizer.__call__")),
                ("ideal surface", rc("IdealSurfaceRegularizer.__call__")), ("lock", rc("lock_control_points_on_outer_edges")),
                ("control points", store("nurbs_control_points")), ("update", rc("update_surfaces")),
                ("pixel loss", rc("PixelLoss.__call__")), ("divergence loss", rc("KLDivergenceLoss.__call__"))]


KINIT = """
    self.ddp_setup = ddp_setup
    self.scenario = scenario
    self.data = data
    self.optimizer_dict = optimization_configuration["optimization"]
    self.scheduler_dict = optimization_configuration["scheduler"]
    self.dni = dni
    self.bitmap_resolution = bitmap_resolution
    self.validation_loss_focal_spot = FocalSpotLoss(scenario=scenario)
    self.validation_loss_pixel = PixelLoss()
    self.validation_loss_kl_div = KLDivergenceLoss()
    if reconstruction_method not in ("raytracing", "alignment"):
        raise ValueError("unknown")
    self.reconstruction_method = reconstruction_method
"""
SINIT = """
    self.ddp_setup = ddp_setup
    self.scenario = scenario
    self.data = data
    self.optimizer_dict = optimization_configuration["optimization"]
    self.scheduler_dict = optimization_configuration["scheduler"]
    self.constraint_dict = optimization_configuration["constraints"]
    self.number_of_surface_points = number_of_surface_points
    self.dni = dni
    self.bitmap_resolution = bitmap_resolution
    self.epsilon = epsilon
    self.validation_loss_pixel = PixelLoss()
    self.validation_loss_kl_div = KLDivergenceLoss()
"""

LOCK = """
    g = gradients.clone()
    h = gradients.shape[2]
    w = gradients.shape[3]
    row = torch.arange(h).unsqueeze(1).expand(h, w)
    column = torch.arange(w).unsqueeze(0).expand(h, w)
    edge = (row == 0) | (row == h - 1) | (column == 0) | (column == w - 1)
    g[:, :, :, :, :2] = torch.where(edge.unsqueeze(0).unsqueeze(1).unsqueeze(4), torch.tensor(0.0), gradients[:, :, :, :, :2])
    return g
"""


def check(repo, R):
    R.rule("O02.kinematics", "kinematic reconstruction predicts every training sample with its own heliostat, motor positions, sun and target, compares it with its own measurement, reduces per heliostat, "
           "differentiates the mean and reports losses under the number of the heliostat; validation does the same with the test samples only")
    R.rule("O02.surface", "surface reconstruction evaluates every sample's surface from the current control points, aims it at its own target, compares the cropped flux with its own measurement, adds the "
           "integral constraint and the regularisers relative to the original control points, locks the outer edges and reports losses under the number of the heliostat")
    ray = repo.const("artist.util.constants.kinematics_reconstruction_raytracing")
    ali = repo.const("artist.util.constants.kinematics_reconstruction_alignment")
    text = both().replace("{ray}", str(ray[1])).replace("{ali}", str(ali[1]))
    flow_compare(repo, R, "O02.kinematics", "kinematics", K + "reconstruct_kinematics", text, KIN, results=("losses", "history"))
    flow_compare(repo, R, "O02.surface", "surface", S + "reconstruct_surfaces", SURF, SUR, results=("losses", "history"))
    attrs_compare(repo, R, "O02.kinematics", K + "__init__", KINIT, raises=True)
    attrs_compare(repo, R, "O02.surface", S + "__init__", SINIT)
    R.rule("O02.edges", "the gradients of the two in-plane coordinates of exactly the outermost control points of every facet are zero, all others unchanged")
    spec_compare(repo, R, "O02.edges", S + "lock_control_points_on_outer_edges", LOCK, layout=True)
    R.floor("O02.edges", 1)

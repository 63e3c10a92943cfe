"""Aim-point optimisation: what is optimised and what it is judged by.  The calls that move heliostats, trace rays and evaluate the loss, the motor
positions given to the kinematics and the quantity that is differentiated are compared, on all paths and over the optimisation loop, with a reference
body (one rank; the distributed part is D01, the loop protocol O01)."""
from __future__ import annotations

from ..loops import attrs_compare
from ..flow import flow_compare, op, optimizer_step, rc, store

Q = "artist.optim.aim_point_optimizer.AimPointOptimizer.optimize"
SPEC = """
    groups = self.scenario.heliostat_field.heliostat_groups
    tower = self.scenario.solar_tower
    n_per_group = self.scenario.heliostat_field.number_of_heliostats_per_group
    offsets = torch.cat([torch.tensor([0]), n_per_group.cumsum(0)[:-1]])
    masks, targets, rays, starts, scales, parameters = [], [], [], [], [], []
    for index, group in enumerate(groups):
        masks.append(torch.ones(group.number_of_heliostats, dtype=torch.int32))
        targets.append(torch.full((group.number_of_heliostats,), self.target_area_index, dtype=torch.int32))
        rays.append(self.incident_ray_direction.repeat(group.number_of_heliostats, 1))
        group.activate_heliostats(active_heliostats_mask=masks[index])
        group.align_surfaces_with_incident_ray_directions(aim_points=tower.get_centers_of_target_areas(target_area_indices=targets[index]),
            incident_ray_directions=rays[index], active_heliostats_mask=masks[index])
        start = group.kinematics.active_motor_positions.detach().clone()
        starts.append(start)
        low = start - group.kinematics.actuators.non_optimizable_parameters[:, indices.actuator_min_motor_position]
        high = group.kinematics.actuators.non_optimizable_parameters[:, indices.actuator_max_motor_position] - start
        scales.append(torch.minimum(low, high).clamp(min=1.0))
        parameters.append(torch.nn.Parameter(torch.zeros_like(start)))
    optimizer = torch.optim.Adam(parameters, lr=float(self.optimizer_dict["initial_learning_rate"]))
    number_planar = tower.number_of_target_areas_per_type[0]
    areas, _ = tower.index_to_target_area[self.target_area_index]
    size = torch.empty(2)
    if self.target_area_index < number_planar:
        size = areas.dimensions[self.target_area_index]
    else:
        size[0] = areas.radii[self.target_area_index - number_planar] * areas.opening_angles[self.target_area_index - number_planar]
        size[1] = areas.heights[self.target_area_index - number_planar]
    limit = torch.prod(size) / torch.prod(self.bitmap_resolution) * self.constraint_dict["max_flux_density"]
    rho_local, rho_integral, rho_intercept = self.constraint_dict["rho_local_flux"], self.constraint_dict["rho_flux_integral"], self.constraint_dict["rho_intercept"]
    multiplier_local = multiplier_integral = multiplier_intercept = 0.0
    reference_integral = reference_intercept = 0.0
    stopper = training.EarlyStopping(window_size=self.optimizer_dict["early_stopping_window"], patience=self.optimizer_dict["early_stopping_patience"],
        min_improvement=self.optimizer_dict["early_stopping_delta"], relative=True)
    h1, h2, h3, h4, h5, h6 = [], [], [], [], [], []
    loss = torch.tensor(torch.inf)
    epoch = 0
    while loss > float(self.optimizer_dict["tolerance"]) and epoch <= self.optimizer_dict["max_epoch"]:
        for index in self.ddp_setup["groups_to_ranks_mapping"][self.ddp_setup["rank"]]:
            group = groups[index]
            group.kinematics.motor_positions = starts[index] + torch.tanh(optimizer.param_groups[0]["params"][index]) * scales[index]
            group.activate_heliostats(active_heliostats_mask=masks[index])
            group.align_surfaces_with_motor_positions(motor_positions=group.kinematics.active_motor_positions, active_heliostats_mask=masks[index])
        flux = torch.zeros((int(self.bitmap_resolution[1]), int(self.bitmap_resolution[0])))
        intercept = torch.zeros(sum(mask.sum() for mask in masks))
        on_target = torch.zeros_like(intercept)
        blocked = torch.zeros_like(intercept)
        for index in self.ddp_setup["groups_to_ranks_mapping"][self.ddp_setup["rank"]]:
            tracer = HeliostatRayTracer(scenario=self.scenario, heliostat_group=groups[index], blocking_active=True,
                world_size=self.ddp_setup["heliostat_group_world_size"], rank=self.ddp_setup["heliostat_group_rank"],
                batch_size=self.optimizer_dict["batch_size"], random_seed=self.ddp_setup["heliostat_group_rank"],
                bitmap_resolution=self.bitmap_resolution, dni=self.dni)
            bitmaps, i, t, b = tracer.trace_rays(incident_ray_directions=rays[index], active_heliostats_mask=masks[index], target_area_indices=targets[index])
            rows = tracer.get_sampler_indices()
            per_target = tracer.get_bitmaps_per_target(bitmaps_per_heliostat=bitmaps, target_area_indices=targets[index][rows])
            flux = flux + per_target[self.target_area_index]
            intercept[offsets[index] + rows] = i
            on_target[offsets[index] + rows] = t
            blocked[offsets[index] + rows] = b
        flux_loss = loss_definition(prediction=flux.unsqueeze(0), ground_truth=self.ground_truth.unsqueeze(0),
            target_area_indices=torch.tensor([self.target_area_index]), reduction_dimensions=(1, 2))
        if isinstance(loss_definition, KLDivergenceLoss):
            if epoch == 0:
                reference_integral = flux.sum().detach()
                reference_intercept = intercept.detach()
            d_integral = (reference_integral - flux.sum()) / (reference_integral + self.epsilon)
            d_intercept = (reference_intercept - intercept) / (reference_intercept + self.epsilon)
            d_local = (flux - limit) / (limit + self.epsilon)
            c_integral = torch.clamp(d_integral, min=0.0)
            c_intercept = torch.clamp(d_intercept, min=0.0)
            c_local = torch.clamp(d_local, min=0.0)
            integral_term = multiplier_integral * c_integral + 0.5 * rho_integral * c_integral**2
            intercept_term = (multiplier_intercept * c_intercept + 0.5 * rho_intercept * c_intercept**2).mean()
            local_term = torch.max(multiplier_local * c_local + 0.5 * rho_local * c_local**2)
            loss = flux_loss + integral_term + intercept_term + local_term
            multiplier_local = torch.clamp(multiplier_local + rho_local * d_local.max(), min=0.0)
            multiplier_intercept = torch.clamp(multiplier_intercept + rho_intercept * d_intercept.mean(), min=0.0)
            multiplier_integral = torch.clamp(multiplier_integral + rho_integral * d_integral, min=0.0)
        else:
            loss = flux_loss
        loss.backward()
        optimizer.step()
        h1.append(loss.detach().cpu().item())
        h2.append(flux_loss.detach().cpu().item())
        if isinstance(loss_definition, KLDivergenceLoss):
            h3.append((100 / reference_integral * (flux.sum() - reference_integral + 1e-8)).detach().cpu().item())
            h4.append(local_term.detach().cpu().item())
            h5.append(intercept_term.detach().cpu().item())
            h6.append(integral_term.detach().cpu().item())
        if stopper.step(loss.item()):
            break
        epoch += 1
    for group in groups:
        group.kinematics.motor_positions = group.kinematics.motor_positions.detach()
    history = {"total_loss": h1, "flux_loss": h2, "local_flux_constraint": h4, "intercept_constraint": h5, "flux_integral_constraint": h6, "flux_integral": h3}
    return loss, history, intercept, on_target, blocked
"""
INIT = """
    self.ddp_setup = ddp_setup
    self.scenario = scenario
    self.optimizer_dict = optimization_configuration["optimization"]
    self.scheduler_dict = optimization_configuration["scheduler"]
    self.constraint_dict = optimization_configuration["constraints"]
    self.incident_ray_direction = incident_ray_direction
    self.target_area_index = target_area_index
    self.ground_truth = ground_truth
    self.dni = dni
    self.bitmap_resolution = bitmap_resolution.to(get_device(device=device))
    self.epsilon = epsilon
"""
RULE = "O07.aim"


def check(repo, R):
    R.rule(RULE, "motor positions are initial position + tanh(parameter) * range, all groups are moved before any is traced, each heliostat aims at the optimised target area, the loss compares the summed "
           "flux on that area with the ground truth, constraints are added exactly for the divergence loss, and the factors returned are those of each heliostat")
    attrs_compare(repo, R, RULE, Q.rpartition(".")[0] + ".__init__", INIT)
    flow_compare(repo, R, RULE, "optimize", Q, SPEC, [
        ("activate", rc("HeliostatGroup.activate_heliostats")),
        ("initial alignment", rc("align_surfaces_with_incident_ray_directions")),
        ("motor positions", store("motor_positions")),
        ("alignment", rc("align_surfaces_with_motor_positions")),
        ("tracer", rc("HeliostatRayTracer")),
        ("trace", rc("trace_rays")),
        ("target bitmap", rc("get_bitmaps_per_target")),
        ("flux loss", rc("Loss.__call__")),
        ("objective", op("backward")),
        ("step", optimizer_step),
    ], results=("loss", "history", "intercept", "on target", "blocking"))

"""Loading a scenario file: every heliostat, actuator, target area and light source becomes one row of the group that stands for it.
The loaders are compared, on all paths and over all loop steps, with reference bodies: which section or prototype feeds every argument, the type dispatch, the
shape of the parameter tables and the refusals of inconsistent files.  (The keys themselves are matched with the writer in S01.)"""
from __future__ import annotations

import ast

from ..flow import flow_compare, kind, op, rc, store
from ..repo import AnalysisError
from ..loops import AlgL, Canon, attrs_compare, raise_condition, spec_compare

H = "artist.io.h5_scenario_parser."
F = "artist.field."
SURFACE = """
    if prototype:
        facets = scenario_file["prototypes"]["surface"]["facets"]
    else:
        facets = scenario_file["surface"]["facets"]
    return SurfaceConfig(facet_list=[FacetConfig(facet_key="",
        control_points=torch.tensor(facets[f][constants.facet_control_points][()], dtype=torch.float, device=device),
        degrees=torch.tensor([facets[f][constants.facet_degrees][()][0], facets[f][constants.facet_degrees][()][1]], dtype=torch.int32, device=device),
        translation_vector=torch.tensor(facets[f][constants.facets_translation_vector][()], dtype=torch.float, device=device),
        canting=torch.tensor(facets[f][constants.facets_canting][()], dtype=torch.float, device=device)) for f in facets.keys()])
"""
KINEMATICS = """
    if prototype:
        config = scenario_file["prototypes"]["kinematics"]
    else:
        config = scenario_file["kinematics"]
    if kinematics_type != "rigid_body":
        raise ValueError()
    t, r = rigid_body_deviations(kinematics_config=config, log=log, heliostat_name=heliostat_name, device=device)
    return t, r, 2
"""
ROW = {"t": ["first_joint_translation_e", "first_joint_translation_n", "first_joint_translation_u", "second_joint_translation_e", "second_joint_translation_n",
             "second_joint_translation_u", "concentrator_translation_e", "concentrator_translation_n", "concentrator_translation_u"],
       "r": ["first_joint_tilt_n", "first_joint_tilt_u", "second_joint_tilt_e", "second_joint_tilt_n"]}
DEVIATIONS = "    t = torch.zeros(9, dtype=torch.float, device=device)\n    r = torch.zeros(4, dtype=torch.float, device=device)\n" + "".join(
    f"""    x = kinematics_config.get(f"{{constants.kinematics_deviations}}/{{constants.{n}}}")
    {v}[{i}] = torch.tensor(x[()], dtype=torch.float, device=device) if x else torch.tensor(0.0, dtype=torch.float, device=device)
""" for v, ns in ROW.items() for i, n in enumerate(ns)) + "    return t, r\n"
ACTUATORS = """
    if prototype:
        config = scenario_file["prototypes"]["actuator"]
    else:
        config = scenario_file["actuator"]
    if actuator_type == "linear":
        a, b = linear_actuators(actuator_config=config, number_of_actuators=number_of_actuators, log=log, heliostat_name=heliostat_name, device=device)
    elif actuator_type == "ideal":
        a, b = ideal_actuators(actuator_config=config, number_of_actuators=number_of_actuators, device=device)
    else:
        raise ValueError()
    return a, b
"""
LINEAR = """
    if len(actuator_config.keys()) != number_of_actuators:
        raise ValueError()
    fixed = torch.zeros((7, number_of_actuators), device=device)
    free = torch.zeros((2, number_of_actuators), device=device)
    for i, a in enumerate(actuator_config.keys()):
        inc = actuator_config.get(f"{a}/{constants.actuator_parameters_key}/{constants.actuator_increment}")
        stroke = actuator_config.get(f"{a}/{constants.actuator_parameters_key}/{constants.actuator_initial_stroke_length}")
        offset = actuator_config.get(f"{a}/{constants.actuator_parameters_key}/{constants.actuator_offset}")
        pivot = actuator_config.get(f"{a}/{constants.actuator_parameters_key}/{constants.actuator_pivot_radius}")
        angle = actuator_config.get(f"{a}/{constants.actuator_parameters_key}/{constants.actuator_initial_angle}")
        fixed[0, i] = constants.linear_actuator_int
        fixed[1, i] = 0 if not bool(actuator_config[a][constants.actuator_clockwise_axis_movement][()]) else 1
        fixed[2, i] = float(actuator_config[a][constants.actuator_min_max_motor_positions][()][0])
        fixed[3, i] = float(actuator_config[a][constants.actuator_min_max_motor_positions][()][1])
        fixed[4, i] = torch.tensor(inc[()], dtype=torch.float, device=device) if inc else torch.tensor(0.0, dtype=torch.float, device=device)
        fixed[5, i] = torch.tensor(offset[()], dtype=torch.float, device=device) if offset else torch.tensor(0.0, dtype=torch.float, device=device)
        fixed[6, i] = torch.tensor(pivot[()], dtype=torch.float, device=device) if pivot else torch.tensor(0.0, dtype=torch.float, device=device)
        free[0, i] = torch.tensor(angle[()], dtype=torch.float, device=device) if angle else torch.tensor(0.0, dtype=torch.float, device=device)
        free[1, i] = torch.tensor(stroke[()], dtype=torch.float, device=device) if stroke else torch.tensor(0.0, dtype=torch.float, device=device)
    axis, angle = rotations.rotation_angle_and_axis(from_orientation=torch.tensor([0.0, -1.0, 0.0, 0.0], device=device),
        to_orientation=torch.tensor([0.0, 0.0, 1.0, 0.0], device=device), device=device)
    free[0, 0] += axis[0] * angle
    return fixed, free
"""
IDEAL = """
    if len(actuator_config.keys()) != number_of_actuators:
        raise ValueError()
    fixed = torch.zeros((4, number_of_actuators), device=device)
    for i, a in enumerate(actuator_config.keys()):
        fixed[0, i] = constants.ideal_actuator_int
        fixed[1, i] = 0 if not bool(actuator_config[a][constants.actuator_clockwise_axis_movement][()]) else 1
        fixed[2, i] = float(actuator_config[a][constants.actuator_min_max_motor_positions][()][0])
        fixed[3, i] = float(actuator_config[a][constants.actuator_min_max_motor_positions][()][1])
    return fixed, torch.tensor([], device=device)
"""

PLANAR = """
    device = get_device(device=device)
    section = config_file["target_areas_planar"]
    order = sorted(section.keys())
    n = len(section)
    names = []
    centers = torch.zeros((n, 4), device=device)
    normals = torch.zeros((n, 4), device=device)
    dimensions = torch.zeros((n, 2), device=device)
    for i, k in enumerate(order):
        names.append(k)
        centers[i] = torch.tensor(section[k][constants.target_area_position_center][()], dtype=torch.float, device=device)
        normals[i] = torch.tensor(section[k][constants.target_area_normal_vector][()], dtype=torch.float, device=device)
        dimensions[i, 0] = float(section[k][constants.target_area_plane_e][()])
        dimensions[i, 1] = float(section[k][constants.target_area_plane_u][()])
    return cls(names=names, centers=centers, normals=normals, dimensions=dimensions)
"""
CYLINDER = """
    device = get_device(device=device)
    section = config_file["target_areas_cylindrical"]
    order = sorted(section.keys())
    n = len(section)
    names = []
    radii = torch.zeros(n, device=device)
    heights = torch.zeros(n, device=device)
    angles = torch.zeros(n, device=device)
    centers = torch.zeros((n, 4), device=device)
    normals = torch.zeros((n, 4), device=device)
    axes = torch.zeros((n, 4), device=device)
    for i, k in enumerate(order):
        names.append(k)
        radii[i] = torch.tensor(section[k][constants.target_area_cylinder_radius][()], dtype=torch.float, device=device)
        centers[i] = torch.tensor(section[k][constants.target_area_cylinder_center][()], dtype=torch.float, device=device)
        heights[i] = torch.tensor(section[k][constants.target_area_cylinder_height][()], dtype=torch.float, device=device)
        axes[i] = torch.tensor(section[k][constants.target_area_cylinder_axis][()], dtype=torch.float, device=device)
        normals[i] = torch.tensor(section[k][constants.target_area_cylinder_normal][()], dtype=torch.float, device=device)
        angles[i] = torch.tensor(section[k][constants.target_area_cylinder_opening_angle][()], dtype=torch.float, device=device)
    return cls(names=names, radii=radii, centers=centers, heights=heights, axes=axes, normals=normals, opening_angles=angles)
"""
TOWER = """
    device = get_device(device=device)
    return cls(target_areas=[TowerTargetAreasPlanar.from_hdf5(config_file=config_file, device=device),
                             TowerTargetAreasCylindrical.from_hdf5(config_file=config_file, device=device)], device=device)
"""
SUN = """
    device = get_device(device=device)
    section = config_file[constants.light_source_distribution_parameters]
    d = {"distribution_type": section["distribution_type"][()].decode("utf-8")}
    if "mean" in section.keys():
        d.update({"mean": float(section["mean"][()])})
    if "covariance" in section.keys():
        d.update({"covariance": float(section["covariance"][()])})
    return cls(number_of_rays=int(config_file[constants.light_source_number_of_rays][()]), distribution_parameters=d, device=device)
"""
LIGHTS = """
    device = get_device(device=device)
    sources = []
    for k in sorted(config_file[constants.light_source_key].keys()):
        t = config_file[constants.light_source_key][k][constants.light_source_type][()].decode("utf-8")
        try:
            sources.append(type_registry.light_source_type_mapping[t].from_hdf5(config_file=config_file[constants.light_source_key][k], light_source_name=k, device=device))
        except KeyError as exc:
            raise KeyError() from exc
    return cls(light_source_list=sources)
"""
NGROUPS = """
    with h5py.File(scenario_path) as f:
        return f[constants.number_of_heliostat_groups][()]
"""
SCENARIO = """
    device = get_device(device=device)
    p = scenario_file["prototypes"]
    plant = torch.tensor(scenario_file[constants.power_plant_key][constants.power_plant_position][()], dtype=torch.float64, device=device)
    tower = SolarTower.from_hdf5(config_file=scenario_file, device=device)
    lights = LightSourceArray.from_hdf5(config_file=scenario_file, device=device)
    surface = h5_scenario_parser.surface_config(prototype=True, scenario_file=scenario_file, device=device)
    orientation = torch.tensor(p["kinematics"][constants.kinematics_initial_orientation][()], dtype=torch.float, device=device)
    kind = p["kinematics"][constants.kinematics_type][()].decode("utf-8")
    t, r, n = h5_scenario_parser.kinematics_deviations(prototype=True, kinematics_type=kind, scenario_file=scenario_file, log=log, device=device)
    types = [p["actuator"][k][constants.actuator_type_key][()].decode("utf-8") for k in list(p["actuator"].keys())]
    if not types:
        raise ValueError()
    if len(set(types)) > 1:
        raise ValueError()
    a, b = h5_scenario_parser.actuator_parameters(prototype=True, scenario_file=scenario_file, actuator_type=types[0], number_of_actuators=n, log=log, device=device)
    field = HeliostatField.from_hdf5(config_file=scenario_file, prototype_surface=surface,
        prototype_kinematics={constants.kinematics_type: kind, constants.kinematics_initial_orientation: orientation, constants.translation_deviations: t, constants.rotation_deviations: r},
        prototype_actuators={constants.actuator_type_key: types[0], constants.actuator_parameters_non_optimizable: a, constants.actuator_parameters_optimizable: b},
        number_of_surface_points_per_facet=number_of_surface_points_per_facet.to(device),
        change_number_of_control_points_per_facet=change_number_of_control_points_per_facet, device=device)
    return cls(power_plant_position=plant, solar_tower=tower, light_sources=lights, heliostat_field=field)
"""
FIELD = """
    device = get_device(device=device)
    data = defaultdict(lambda: defaultdict(list))
    for name in config_file["heliostats"].keys():
        h = config_file["heliostats"][name]
        if "surface" in h.keys():
            surface_config = h5_scenario_parser.surface_config(prototype=False, scenario_file=h, device=device)
        else:
            if prototype_surface is None:
                raise ValueError()
            surface_config = prototype_surface
        if "kinematics" in h.keys():
            initial_orientation = torch.tensor(h["kinematics"][constants.kinematics_initial_orientation][()], dtype=torch.float, device=device)
            kind = h["kinematics"][constants.kinematics_type][()].decode("utf-8")
            t, r, n = h5_scenario_parser.kinematics_deviations(prototype=False, kinematics_type=kind, scenario_file=h, log=log, heliostat_name=name, device=device)
        else:
            if prototype_kinematics is None:
                raise ValueError()
            kind = prototype_kinematics[constants.kinematics_type]
            initial_orientation = prototype_kinematics[constants.kinematics_initial_orientation]
            t = prototype_kinematics[constants.translation_deviations]
            r = prototype_kinematics[constants.rotation_deviations]
        if "actuator" in h.keys():
            types = []
            for key in list(h["actuator"].keys()):
                types.append(h["actuator"][key][constants.actuator_type_key][()].decode("utf-8"))
            if kind == "rigid_body":
                n = 2
                if len({a for a in types}) > 1:
                    raise ValueError()
                else:
                    actuator_type = types[0]
            a, b = h5_scenario_parser.actuator_parameters(prototype=False, scenario_file=h, actuator_type=actuator_type, number_of_actuators=n, log=log, heliostat_name=name, device=device)
        else:
            if prototype_actuators is None:
                raise ValueError()
            actuator_type = str(prototype_actuators[constants.actuator_type_key])
            a = prototype_actuators[constants.actuator_parameters_non_optimizable]
            b = prototype_actuators[constants.actuator_parameters_optimizable]
        surface = Surface(surface_config, device=device)
        nf = len(surface_config.facet_list)
        degrees = torch.empty(2, dtype=torch.int32, device=device)
        control_points = torch.empty((nf, surface_config.facet_list[0].control_points.shape[0], surface_config.facet_list[0].control_points.shape[1], 3), device=device)
        canting = torch.empty((nf, 2, 4), device=device)
        translations = torch.empty((nf, 4), device=device)
        for f in range(nf):
            degrees = surface_config.facet_list[f].degrees
            control_points[f] = surface_config.facet_list[f].control_points
            canting[f] = surface_config.facet_list[f].canting
            translations[f] = surface_config.facet_list[f].translation_vector
        if change_number_of_control_points_per_facet is not None:
            control_points = create_planar_nurbs_control_points(number_of_control_points=change_number_of_control_points_per_facet, canting=canting, device=device)
        g = f"{kind}_{actuator_type}"
        data[g][constants.names].append(name)
        data[g][constants.heliostat_group_type] = [kind, actuator_type]
        data[g][constants.positions].append(torch.tensor(h[constants.heliostat_position][()], dtype=torch.float, device=device))
        data[g][constants.surface_points].append(surface.get_surface_points_and_normals(number_of_points_per_facet=number_of_surface_points_per_facet, canting=canting, facet_translations=translations, device=device)[0])
        data[g][constants.surface_normals].append(surface.get_surface_points_and_normals(number_of_points_per_facet=number_of_surface_points_per_facet, canting=canting, facet_translations=translations, device=device)[1])
        data[g][constants.facets_canting].append(canting)
        data[g][constants.facet_translations].append(translations)
        data[g][constants.facet_control_points].append(control_points)
        data[g][constants.facet_degrees].append(degrees)
        data[g][constants.initial_orientations].append(initial_orientation)
        data[g][constants.translation_deviations].append(t)
        data[g][constants.rotation_deviations].append(r)
        data[g][constants.actuator_parameters_non_optimizable].append(a)
        data[g][constants.actuator_parameters_optimizable].append(b)
    for g in data:
        for key in data[g]:
            if key not in [constants.names, constants.kinematics_type, constants.actuator_type_key]:
                data[g][key] = torch.stack(data[g][key])
    groups = []
    for g in data.keys():
        d = data[g]
        k = len(d[constants.names])
        groups.append(type_registry.heliostat_group_type_mapping[g](names=d[constants.names], positions=d[constants.positions],
            surface_points=d[constants.surface_points].reshape(k, -1, 4), surface_normals=d[constants.surface_normals].reshape(k, -1, 4),
            canting=d[constants.facets_canting], facet_translations=d[constants.facet_translations], nurbs_control_points=d[constants.facet_control_points],
            nurbs_degrees=d[constants.facet_degrees][0], initial_orientations=d[constants.initial_orientations],
            kinematics_translation_deviation_parameters=d[constants.translation_deviations], kinematics_rotation_deviation_parameters=d[constants.rotation_deviations],
            actuator_parameters_non_optimizable=d[constants.actuator_parameters_non_optimizable], actuator_parameters_optimizable=d[constants.actuator_parameters_optimizable], device=device))
    return cls(heliostat_groups=groups, device=device)
"""

INIT = {"__init__": """
    if not file_path.parent.is_dir():
        raise FileNotFoundError()
    self.file_path = file_path
    self.power_plant_config = power_plant_config
    self.target_area_list_planar_config = target_area_list_planar_config
    self.target_area_list_cylindrical_config = target_area_list_cylindrical_config
    self.light_source_list_config = light_source_list_config
    self.heliostat_list_config = heliostat_list_config
    self.prototype_config = prototype_config
    self.version = version
    n = len(prototype_config.surface_prototype.facet_list)
    for h in heliostat_list_config.heliostat_list:
        if h.surface:
            if len(h.surface.facet_list) != n:
                raise ValueError()
"""}
COUNT = """
    g = set()
    for h in self.heliostat_list_config.heliostat_list:
        if isinstance(h.kinematics, KinematicsConfig):
            k = h.kinematics.kinematics_type
        else:
            k = self.prototype_config.kinematics_prototype.kinematics_type
        if isinstance(h.actuators, ActuatorListConfig):
            l = h.actuators.actuator_list
        else:
            l = self.prototype_config.actuators_prototype.actuator_list
        for a in l:
            g.add((k, a.actuator_type))
    return len(g)
"""
FLATTEN = """
    for k, v in d.items():
        key = parent_key + sep + k if parent_key else k
        if isinstance(v, MutableMapping):
            yield from self._flatten_dict_gen(v, key, sep=sep)
        else:
            yield key, v
"""
INCLUDE = """
    file.require_group(prefix)
    for k, v in parameters.items():
        file[f"{prefix}/{k}"] = v.cpu() if torch.is_tensor(v) else v
"""
GENERATE = """
    p = self.file_path if self.file_path.suffix == ".h5" else self.file_path.with_suffix(".h5")
    with h5py.File(p, "w") as f:
        f.attrs["version"] = self.version
        f[constants.number_of_heliostat_groups] = self._get_number_of_heliostat_groups()
        self._include_parameters(file=f, prefix=constants.power_plant_key, parameters=self._flatten_dict(self.power_plant_config.create_power_plant_dict()))
        self._include_parameters(file=f, prefix=constants.target_area_planar_key, parameters=self._flatten_dict(self.target_area_list_planar_config.create_target_area_list_dict()))
        self._include_parameters(file=f, prefix=constants.target_area_cylindrical_key, parameters=self._flatten_dict(self.target_area_list_cylindrical_config.create_target_area_list_dict()))
        self._include_parameters(file=f, prefix=constants.light_source_key, parameters=self._flatten_dict(self.light_source_list_config.create_light_source_list_dict()))
        self._include_parameters(file=f, prefix=constants.prototype_key, parameters=self._flatten_dict(self.prototype_config.create_prototype_dict()))
        self._include_parameters(file=f, prefix=constants.heliostat_key, parameters=self._flatten_dict(self.heliostat_list_config.create_heliostat_list_dict()))
"""
REGISTRY = {"heliostat_group_type_mapping": {"rigid_body_linear": "HeliostatGroupRigidBody", "rigid_body_ideal": "HeliostatGroupRigidBody"},
            "actuator_type_mapping": {0: "LinearActuators", 1: "IdealActuators"}, "light_source_type_mapping": {"sun": "Sun"}}
SAME = lambda *names: "".join(f"self.{n} = {n}\n" for n in names)
ROW = "self.non_optimizable_parameters = non_optimizable_parameters\nself.optimizable_parameters = optimizable_parameters\n"
OBJECTS = {
    F + "heliostat_field.HeliostatField": """self.heliostat_groups = heliostat_groups
self.number_of_heliostat_groups = len(heliostat_groups)
self.number_of_heliostats_per_group = torch.tensor([g.number_of_heliostats for g in heliostat_groups])
""",
    F + "heliostat_group_rigid_body.HeliostatGroupRigidBody": SAME("names", "positions", "surface_points", "surface_normals", "canting", "facet_translations", "initial_orientations",
                                                                  "nurbs_control_points", "nurbs_degrees") + """self.number_of_heliostats = len(names)
self.number_of_facets_per_heliostat = nurbs_control_points.shape[1]
self.number_of_active_heliostats = 0
self.active_heliostats_mask = torch.zeros(len(names))
self.kinematics = RigidBody(number_of_heliostats=len(names), heliostat_positions=positions, initial_orientations=initial_orientations, translation_deviation_parameters=kinematics_translation_deviation_parameters, rotation_deviation_parameters=kinematics_rotation_deviation_parameters, actuator_parameters_non_optimizable=actuator_parameters_non_optimizable, actuator_parameters_optimizable=actuator_parameters_optimizable.to(device), device=device)
""",
    F + "kinematics_rigid_body.RigidBody": SAME("number_of_heliostats", "heliostat_positions", "initial_orientations", "translation_deviation_parameters", "rotation_deviation_parameters") + """device = get_device(device=device)
self.number_of_active_heliostats = 0
self.motor_positions = torch.zeros((number_of_heliostats, 2))
self.actuators = type_registry.actuator_type_mapping[actuator_parameters_non_optimizable[0, 0, 0].item()](non_optimizable_parameters=actuator_parameters_non_optimizable, optimizable_parameters=actuator_parameters_optimizable.to(device), device=device)
""",
    F + "actuators_linear.LinearActuators": ROW, F + "actuators_ideal.IdealActuators": ROW,
    F + "surface.Surface": """self.nurbs_surface = NURBSSurfaces(degrees=surface_config.facet_list[0].degrees, control_points=torch.stack([x.control_points for x in surface_config.facet_list]).unsqueeze(0), device=device)
"""}


def check(repo, R):
    A = AlgL()
    R.rule("S02.parameters", "deviations and actuator parameters of a heliostat are read from its own section or the prototype's, one row per parameter and one column per actuator; other types and counts are refused")

    def cmp(rule, q, text, names=None, raises=True, **kw):
        g, s = spec_compare(repo, R, rule, q, text, names=names, A=A, layout=True, **kw)
        if raises:
            f = repo.func(q)
            a, b = raise_condition(g, A, Canon(g.interp, A, layout=True)), raise_condition(s, A, Canon(s.interp, A, layout=True))
            R.ob(rule, f"{f.name}.refused", a == b, f"{f.file}:{f.line}", "" if a == b else f"refused when {a} expected {b}"[:400])
    cmp("S02.parameters", H + "surface_config", SURFACE)
    cmp("S02.parameters", H + "kinematics_deviations", KINEMATICS, ("translations", "rotations", "number of actuators"))
    cmp("S02.parameters", H + "rigid_body_deviations", DEVIATIONS, ("translations", "rotations"))
    cmp("S02.parameters", H + "actuator_parameters", ACTUATORS, ("fixed", "optimizable"))
    cmp("S02.parameters", H + "linear_actuators", LINEAR, ("fixed", "optimizable"))
    cmp("S02.parameters", H + "ideal_actuators", IDEAL, ("fixed", "optimizable"))
    R.rule("S02.tower", "every target area of the file becomes one row (in name order) with the values stored under its name; global indices count the planar areas first, in the same order in both directions")
    cmp("S02.tower", F + "tower_target_areas_planar.TowerTargetAreasPlanar.from_hdf5", PLANAR)
    cmp("S02.tower", F + "tower_target_areas_cylindrical.TowerTargetAreasCylindrical.from_hdf5", CYLINDER)
    cmp("S02.tower", F + "solar_tower.SolarTower.from_hdf5", TOWER)
    R.rule("S02.light", "every light source of the file is loaded by the class its type names, in name order, with the stored ray number and distribution; unknown types are refused")
    cmp("S02.light", "artist.scene.sun.Sun.from_hdf5", SUN)
    cmp("S02.light", "artist.scene.light_source_array.LightSourceArray.from_hdf5", LIGHTS)
    R.rule("S02.field", "every heliostat of the file becomes one row of the group of its kinematics and actuator type, with its own section where it has one and the prototype's otherwise; inconsistent heliostats are refused")
    cmp("S02.field", F + "heliostat_field.HeliostatField.from_hdf5", FIELD)
    R.rule("S02.scenario", "the scenario is the file's power plant, tower, light sources and field, with all prototypes of the file handed on")
    cmp("S02.scenario", "artist.scenario.scenario.Scenario.load_scenario_from_hdf5", SCENARIO)
    cmp("S02.scenario", "artist.scenario.scenario.Scenario.get_number_of_heliostat_groups_from_hdf5", NGROUPS)

    R.rule("S02.write", "the file holds every section of the configuration under its key, flattened without loss; sections that are empty exist; the number of groups counts the pairs of kinematics and actuator types in use")
    G = "artist.scenario.h5_scenario_generator.H5ScenarioGenerator."
    cmp("S02.write", G + "_get_number_of_heliostat_groups", COUNT, raises=False)
    flow_compare(repo, R, "S02.write", "flatten", G + "_flatten_dict_gen", FLATTEN, [("nested", kind("yieldfrom")), ("entry", kind("yield"))], opaque=("_flatten_dict_gen",))
    flow_compare(repo, R, "S02.write", "include", G + "_include_parameters", INCLUDE, [("section", op("require_group")), ("host", op("cpu")), ("entry", kind("store_sub"))])
    cmp("S02.write", G + "_flatten_dict", """
    return dict(self._flatten_dict_gen(dictionary, parent_key, sep))
""", raises=False, opaque=("_flatten_dict_gen",))
    flow_compare(repo, R, "S02.write", "generate", G + "generate_scenario", GENERATE,
                 [("file", op("File")), ("count", kind("store_sub")), ("section", rc("_include_parameters"))],
                 opaque=("_include_parameters", "_flatten_dict", "_get_number_of_heliostat_groups"))
    attrs_compare(repo, R, "S02.write", G + "__init__", INIT["__init__"], raises=True)
    R.rule("S02.objects", "field, heliostat groups, kinematics, actuators, surfaces, tower, light source array and scenario hold what they are created with; a new group has no active heliostat")
    T = F + "tower_target_areas"
    base = "self.names = names\nself.centers = centers\nself.normals = normals\nself.number_of_target_areas = len(names)\n"
    for q, text in {T + "_planar.TowerTargetAreasPlanar": base + "self.dimensions = dimensions",
                    T + "_cylindrical.TowerTargetAreasCylindrical": base + "self.radii = radii\nself.heights = heights\nself.axes = axes\nself.opening_angles = opening_angles",
                    "artist.scene.light_source_array.LightSourceArray": "self.light_source_list = light_source_list",
                    "artist.scenario.scenario.Scenario": "self.power_plant_position = power_plant_position\nself.solar_tower = solar_tower\nself.light_sources = light_sources\nself.heliostat_field = heliostat_field",
                    **OBJECTS}.items():
        attrs_compare(repo, R, "S02.objects", q + ".__init__", "".join("\n    " + t for t in text.strip().splitlines()) + "\n",
                      inline=("TowerTargetAreas.__init__", "HeliostatGroup.__init__", "Actuators.__init__"))
    flow_compare(repo, R, "S02.objects", "rays", "artist.scenario.scenario.Scenario.set_number_of_rays", """
    self.light_sources.light_source_list[0].number_of_rays = number_of_rays
""", [("set", store("number_of_rays"))])
    R.rule("S02.registry", "every type name or number is mapped to the class that implements it")
    m = repo.modules["artist.util.type_registry"]
    for name, want in REGISTRY.items():
        e = m.assigns.get(name)
        if not isinstance(e, ast.Dict):
            raise AnalysisError(f"{name} is not a dictionary display")
        have = {repo._lit(k, m, 0)[1]: (repo.resolve_expr_dotted(v, m) or "?").rpartition(".")[2] for k, v in zip(e.keys, e.values)}
        for k, v in want.items():
            R.ob("S02.registry", f"{name}[{k}]", have.get(k) == v, f"artist/util/type_registry.py:{e.lineno}", "" if have.get(k) == v else f"mapped to {have.get(k)} instead of {v}")
    for r, n in {"S02.parameters": 12, "S02.tower": 6, "S02.light": 4, "S02.field": 2, "S02.scenario": 4, "S02.write": 10, "S02.registry": 5, "S02.objects": 40}.items():
        R.floor(r, n)

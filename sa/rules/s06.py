"""Importing measured data: what the PAINT and STRAL files say ends up, with its unit and coordinate frame, in the configuration objects of a scenario.
Every importer is compared, on all paths and over all loop steps, with a reference body: which entry of the file feeds which field, the conversions applied to
it (geodetic to local coordinates, degrees to radians, points and directions to homogeneous coordinates), the order of heliostats, facets and actuators, and the
geometry derived from corner points."""
from __future__ import annotations

import re

from ..loops import AlgL, spec_compare

P = "artist.io.paint_scenario_parser."
T = "artist.io.stral_scenario_parser."


def key(repo, t):
    """{NAME} stands for the PAINT key of that name, {{NAME!}} for the same inside an f-string."""
    t = re.sub(r"\{\{([A-Z_0-9]+)!\}\}", r"{paint_mappings.\1}", t)
    return re.sub(r"\{([A-Z_0-9]+)\}", r"paint_mappings.\1", t)


CORNERS = """
    width = (abs(upper_right[0] - upper_left[0]) + abs(lower_right[0] - lower_left[0])) / 2
    height = (abs(upper_left[2] - lower_left[2]) + abs(upper_right[2] - lower_right[2])) / 2
    return width, height
"""
TOWER = """
    with open(tower_measurements_path, "r") as f:
        d = json.load(f)
    plant = torch.tensor(d[{POWER_PLANT_KEY}][{TOWER_COORDINATES_KEY}], dtype=torch.float64, device=device)
    planar, cylindrical = [], []
    for name in list(d.keys())[1:]:
        if d[name][{TOWER_TYPE_KEY}] == "planar":
            corners = torch.tensor([d[name][{TOWER_COORDINATES_KEY}][c] for c in [{UPPER_LEFT}, {LOWER_LEFT}, {UPPER_RIGHT}, {LOWER_RIGHT}]], dtype=torch.float64, device=device)
            ul, ll, ur, lr = coordinates.convert_wgs84_coordinates_to_local_enu(corners, plant, device=device)
            width, height = corner_points_to_plane(ul, ur, ll, lr)
            mid = torch.tensor([d[name][{TOWER_COORDINATES_KEY}][{CENTER}]], dtype=torch.float64, device=device)
            planar.append(TargetAreaPlanarConfig(
                target_area_key=name,
                center=coordinates.convert_3d_points_to_4d_format(coordinates.convert_wgs84_coordinates_to_local_enu(mid, plant, device=device)[0], device=device),
                normal_vector=coordinates.convert_3d_directions_to_4d_format(torch.tensor([d[name][{TOWER_NORMAL_VECTOR_KEY}]], device=device), device=device),
                plane_e=width, plane_u=height))
        if d[name][{TOWER_TYPE_KEY}] == "convex_cylinder":
            p = "receiver_inner_" if name == "receiver" else ""
            corners = torch.tensor([d[name][{TOWER_COORDINATES_KEY}][c] for c in [f"{p}{{UPPER_LEFT!}}", f"{p}{{LOWER_LEFT!}}", f"{p}{{UPPER_RIGHT!}}", f"{p}{{LOWER_RIGHT!}}"]], dtype=torch.float64, device=device)
            ul, ll, ur, lr = coordinates.convert_wgs84_coordinates_to_local_enu(corners, plant, device=device)
            r = d[name]["radius"]
            n = torch.tensor(d[name]["normal_vector"], device=device)
            up = torch.tensor([0.0, 0.0, 1.0], device=device)
            axis = torch.nn.functional.normalize(torch.cross(torch.cross(n, up, dim=-1), n, dim=-1), dim=-1)
            low = (ll + lr) / 2 - n * torch.sqrt(r**2 - (torch.norm(lr - ll) / 2) ** 2)
            high = (ul + ur) / 2 - n * torch.sqrt(r**2 - (torch.norm(ur - ul) / 2) ** 2)
            cylindrical.append(TargetAreaCylindricalConfig(
                target_area_key=name, radius=r,
                center=coordinates.convert_3d_points_to_4d_format((low + high) / 2, device=device),
                height=torch.norm(low - high),
                axis=coordinates.convert_3d_directions_to_4d_format(axis, device=device),
                normal=coordinates.convert_3d_directions_to_4d_format(n, device=device),
                opening_angle=torch.deg2rad(torch.tensor(d[name]["opening_angle"], device=device))))
    return PowerPlantConfig(power_plant_position=plant), TargetAreaPlanarListConfig(planar), TargetAreaCylindricalListConfig(cylindrical)
"""
HELIOSTAT = """
    with open(heliostat_properties_path, "r") as f:
        d = json.load(f)
    position = coordinates.convert_3d_points_to_4d_format(coordinates.convert_wgs84_coordinates_to_local_enu(
        torch.tensor([d[{HELIOSTAT_POSITION_KEY}]], dtype=torch.float64, device=device), power_plant_position, device=device)[0], device=device)
    n = d[{FACET_PROPERTIES_KEY}][{NUM_FACETS}]
    translations = torch.empty(n, 3, device=device)
    canting = torch.empty(n, 2, 3, device=device)
    for i in range(n):
        translations[i, :] = torch.tensor(d[{FACET_PROPERTIES_KEY}][{FACETS_LIST}][i][{TRANSLATION_VECTOR}], device=device)
        canting[i, 0] = torch.tensor(d[{FACET_PROPERTIES_KEY}][{FACETS_LIST}][i][{CANTING_E}], device=device)
        canting[i, 1] = torch.tensor(d[{FACET_PROPERTIES_KEY}][{FACETS_LIST}][i][{CANTING_N}], device=device)
    k = d[{KINEMATICS_PROPERTIES_KEY}]
    deviations = KinematicsDeviations(
        first_joint_translation_e=torch.tensor(k[{FIRST_JOINT_TRANSLATION_E_KEY}], device=device),
        first_joint_translation_n=torch.tensor(k[{FIRST_JOINT_TRANSLATION_N_KEY}], device=device),
        first_joint_translation_u=torch.tensor(k[{FIRST_JOINT_TRANSLATION_U_KEY}], device=device),
        first_joint_tilt_n=torch.tensor(0.0, device=device),
        first_joint_tilt_u=torch.tensor(0.0, device=device),
        second_joint_translation_e=torch.tensor(k[{SECOND_JOINT_TRANSLATION_E_KEY}], device=device),
        second_joint_translation_n=torch.tensor(k[{SECOND_JOINT_TRANSLATION_N_KEY}], device=device),
        second_joint_translation_u=torch.tensor(k[{SECOND_JOINT_TRANSLATION_U_KEY}], device=device),
        second_joint_tilt_e=torch.tensor(0.0, device=device),
        second_joint_tilt_n=torch.tensor(0.0, device=device),
        concentrator_translation_e=torch.tensor(k[{CONCENTRATOR_TRANSLATION_E_KEY}], device=device),
        concentrator_translation_n=torch.tensor(k[{CONCENTRATOR_TRANSLATION_N_KEY}], device=device),
        concentrator_translation_u=torch.tensor(k[{CONCENTRATOR_TRANSLATION_U_KEY}], device=device))
    actuators = []
    for a in list(k[{ACTUATOR_KEY}]):
        actuators.append((a["type_axis"], a["clockwise_axis_movement"], [a["min_increment"], a["max_increment"]], ActuatorParameters(
            increment=torch.tensor(a["increment"], device=device),
            initial_stroke_length=torch.tensor(a["initial_stroke_length"], device=device),
            offset=torch.tensor(a["offset"], device=device),
            pivot_radius=torch.tensor(a["pivot_radius"], device=device),
            initial_angle=torch.tensor(a["initial_angle"], device=device))))
    return (position,
        coordinates.convert_3d_directions_to_4d_format(translations, device=device),
        coordinates.convert_3d_directions_to_4d_format(canting, device=device),
        deviations,
        coordinates.convert_3d_directions_to_4d_format(torch.tensor(d[{INITIAL_ORIENTATION_KEY}], device=device), device=device),
        actuators)
"""
DEFLECTOMETRY = """
    all_points, all_normals = [], []
    with h5py.File(heliostat_deflectometry_path, "r") as file:
        for f in range(number_of_facets):
            n = len(file[f"{{FACET_KEY!}}{f + 1}"][{SURFACE_POINT_KEY}])
            points = torch.empty(n, 3, device=device)
            normals = torch.empty(n, 3, device=device)
            for i, x in enumerate(torch.tensor(file[f"{{FACET_KEY!}}{f + 1}"][{SURFACE_POINT_KEY}][()], device=device)):
                points[i, :] = x
            for i, x in enumerate(torch.tensor(file[f"{{FACET_KEY!}}{f + 1}"][{SURFACE_NORMAL_KEY}][()], device=device)):
                normals[i, :] = x
            all_points.append(points)
            all_normals.append(normals)
    return all_points, all_normals
"""
IDEAL = """
    return SurfaceGenerator(number_of_control_points=number_of_nurbs_control_points.to(device), device=device).generate_ideal_surface_config(
        facet_translation_vectors=facet_translation_vectors, canting=canting, device=device)
"""
FITTED = """
    points, normals = extract_paint_deflectometry_data(heliostat_deflectometry_path=pathlib.Path(file_tuple[2]), number_of_facets=facet_translation_vectors.shape[0], device=device)
    return SurfaceGenerator(number_of_control_points=number_of_nurbs_control_points.to(device), device=device).generate_fitted_surface_config(
        heliostat_name=str(file_tuple[0]), facet_translation_vectors=facet_translation_vectors, canting=canting,
        surface_points_with_facets_list=points, surface_normals_with_facets_list=normals,
        optimizer=kwargs.get("nurbs_fit_optimizer"), scheduler=kwargs.get("nurbs_fit_scheduler"),
        deflectometry_step_size=kwargs.get("deflectometry_step_size", 100), fit_method=kwargs.get("nurbs_fit_method", constants.fit_nurbs_from_normals),
        tolerance=kwargs.get("nurbs_fit_tolerance", 1e-10), max_epoch=kwargs.get("nurbs_fit_max_epoch", 400), device=device)
"""
PROCESS = """
    device = get_device(device=device)
    heliostats = []
    for h, files in enumerate(paths):
        position, translations, canting, deviations, orientation, parameters = extract_paint_heliostat_properties(
            heliostat_properties_path=pathlib.Path(files[1]), power_plant_position=power_plant_position, device=device)
        surface = surface_config_generator(file_tuple=files, facet_translation_vectors=translations, canting=canting,
            number_of_nurbs_control_points=number_of_nurbs_control_points, device=device, **kwargs)
        kinematics = KinematicsConfig(kinematics_type="rigid_body", initial_orientation=orientation, deviations=deviations)
        actuators = []
        for a, (kind, clockwise, limits, values) in enumerate(parameters):
            actuators.append(ActuatorConfig(key=f"actuator_{a}", actuator_type=str(kind), clockwise_axis_movement=bool(clockwise),
                min_max_motor_positions=cast(List[float], limits), parameters=cast(ActuatorParameters, values)))
        heliostats.append(HeliostatConfig(name=str(files[0]), heliostat_id=h, position=position, surface=surface, kinematics=kinematics,
            actuators=ActuatorListConfig(actuator_list=actuators)))
        s = SurfacePrototypeConfig(facet_list=surface.facet_list)
        k = (
            KinematicsPrototypeConfig(kinematics_type=kinematics.kinematics_type, initial_orientation=kinematics.initial_orientation, deviations=kinematics.deviations))
        p = ActuatorPrototypeConfig(actuator_list=actuators)
    return HeliostatListConfig(heliostat_list=heliostats), PrototypeConfig(surface_prototype=s, kinematics_prototype=k, actuators_prototype=p)
"""
IDEALS = """
    return _process_heliostats_from_paths(paths=paths, power_plant_position=power_plant_position, number_of_nurbs_control_points=number_of_nurbs_control_points,
        surface_config_generator=_ideal_surface_generator, device=device)
"""
FITTEDS = """
    return _process_heliostats_from_paths(paths=paths, power_plant_position=power_plant_position, number_of_nurbs_control_points=number_of_nurbs_control_points,
        surface_config_generator=_fitted_surface_generator, device=device, nurbs_fit_optimizer=nurbs_fit_optimizer, nurbs_fit_scheduler=nurbs_fit_scheduler,
        deflectometry_step_size=deflectometry_step_size, nurbs_fit_method=nurbs_fit_method, nurbs_fit_tolerance=nurbs_fit_tolerance, nurbs_fit_max_epoch=nurbs_fit_max_epoch)
"""
MIXED = """
    fitted = [p for p in paths if len(p) == 3 and p[2] is not None]
    ideal = [p for p in paths if not (len(p) == 3 and p[2] is not None)]
    heliostats, prototype = _process_heliostats_from_paths(paths=ideal if ideal else paths[:1], power_plant_position=power_plant_position,
        number_of_nurbs_control_points=number_of_nurbs_control_points, surface_config_generator=_ideal_surface_generator, device=device)
    out = list(heliostats.heliostat_list) if ideal else []
    if fitted:
        more, _ = _process_heliostats_from_paths(paths=fitted, power_plant_position=power_plant_position, number_of_nurbs_control_points=number_of_nurbs_control_points,
            surface_config_generator=_fitted_surface_generator, device=device, nurbs_fit_optimizer=nurbs_fit_optimizer, nurbs_fit_scheduler=nurbs_fit_scheduler,
            deflectometry_step_size=deflectometry_step_size, nurbs_fit_method=nurbs_fit_method, nurbs_fit_tolerance=nurbs_fit_tolerance, nurbs_fit_max_epoch=nurbs_fit_max_epoch)
        out += more.heliostat_list
    return HeliostatListConfig(heliostat_list=out), prototype
"""
STRAL = """
    surface, facet, point = struct.Struct("=5f2I2f"), struct.Struct("=i9fI"), struct.Struct("=7f")
    all_points, all_normals = [], []
    with open(f"{stral_file_path}", "rb") as file:
        h = surface.unpack_from(file.read(surface.size))
        n = h[5:7][0] * h[5:7][1]
        translations = torch.empty(n, 3, device=device)
        canting = torch.empty(n, 2, 3, device=device)
        for f in range(n):
            d = facet.unpack_from(file.read(facet.size))
            translations[f] = torch.tensor(d[1:4], dtype=torch.float, device=device)
            canting[f, 0] = torch.tensor(d[4:7], dtype=torch.float, device=device)
            canting[f, 1] = torch.tensor(d[7:10], dtype=torch.float, device=device)
            points = torch.empty(d[10], 3, device=device)
            normals = torch.empty(d[10], 3, device=device)
            for i, x in enumerate(point.iter_unpack(file.read(point.size * d[10]))):
                points[i, :] = torch.tensor(x[:3], dtype=torch.float, device=device)
                normals[i, :] = torch.tensor(x[3:6], dtype=torch.float, device=device)
            all_points.append(points)
            all_normals.append(normals)
    return (coordinates.convert_3d_directions_to_4d_format(translations, device=device),
        coordinates.convert_3d_directions_to_4d_format(canting, device=device), all_points, all_normals)
"""
CALLEES = ("_process_heliostats_from_paths", "_ideal_surface_generator", "_fitted_surface_generator", "extract_paint_heliostat_properties",
           "extract_paint_deflectometry_data", "corner_points_to_plane")


def check(repo, R):
    A = AlgL()
    R.rule("S06.tower", "every target area of a tower file becomes one area of its type with its own corners, centre, normal, extent, radius, axis and angle")
    R.rule("S06.heliostat", "position, facets, deviations, orientation and actuators of a heliostat come from its own file entries")
    R.rule("S06.surface", "deflectometry of facet i becomes facet i; ideal and fitted surfaces use the heliostat's own canting and translations")
    R.rule("S06.field", "every listed heliostat appears once with its own name, files and configuration; the fit settings reach the fit")
    R.rule("S06.stral", "STRAL records are decoded field by field in file order")
    op = tuple(P + c for c in CALLEES)

    def cmp(rule, q, text, names=None):
        spec_compare(repo, R, rule, q, key(repo, text), names=names, A=A, layout=True, opaque=tuple(o for o in op if o != q))
    cmp("S06.tower", P + "corner_points_to_plane", CORNERS, ("width", "height"))
    cmp("S06.tower", P + "extract_paint_tower_measurements", TOWER, ("plant", "planar", "cylindrical"))
    cmp("S06.heliostat", P + "extract_paint_heliostat_properties", HELIOSTAT, ("position", "translations", "canting", "deviations", "orientation", "actuators"))
    cmp("S06.surface", P + "extract_paint_deflectometry_data", DEFLECTOMETRY, ("points", "normals"))
    cmp("S06.surface", P + "_ideal_surface_generator", IDEAL)
    cmp("S06.surface", P + "_fitted_surface_generator", FITTED)
    cmp("S06.field", P + "_process_heliostats_from_paths", PROCESS, ("heliostats", "prototype"))
    cmp("S06.field", P + "extract_paint_heliostats_ideal_surface", IDEALS)
    cmp("S06.field", P + "extract_paint_heliostats_fitted_surface", FITTEDS)
    cmp("S06.field", P + "extract_paint_heliostats_mixed_surface", MIXED, ("heliostats", "prototype"))
    cmp("S06.stral", T + "extract_stral_deflectometry_data", STRAL, ("translations", "canting", "points", "normals"))
    R.floor("S06.tower", 5)
    R.floor("S06.heliostat", 6)
    R.floor("S06.surface", 4)
    R.floor("S06.field", 6)
    R.floor("S06.stral", 4)

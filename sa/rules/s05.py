"""Calibration samples: which measurement, heliostat and quantity every row of the reconstruction data describes.
The loader functions are compared, on all paths and over all loop steps, with reference bodies; rows are written by a running index, so the comparison covers
the order of heliostats and of the files of one heliostat."""
from __future__ import annotations

from ..loops import AlgL, attrs_compare, spec_compare
from .s06 import key

C = "artist.io.calibration_parser.CalibrationDataParser."
P = "artist.io.paint_calibration_parser.PaintCalibrationDataParser."
B = "artist.io.paint_scenario_parser."
FLUX = """
    width, height = resolution.to(device).tolist()
    files = dict(heliostat_flux_path_mapping)
    total = sum(min(len(files.get(name, [])), self.sample_limit or len(files.get(name, []))) for name in heliostat_names)
    if total == 0:
        return torch.empty((0, height, width), device=device, dtype=torch.float32)
    out = torch.empty((total, height, width), device=device, dtype=torch.float32)
    i = 0
    for name in heliostat_names:
        paths = files.get(name, [])
        n = min(len(paths), self.sample_limit or len(paths))
        for path in paths[:n]:
            image = torchvision.io.decode_image(str(path), mode=torchvision.io.ImageReadMode.GRAY).squeeze(0).float().to(device)
            if image.shape != (height, width):
                image = torch.from_numpy(np.asarray(Image.open(path).convert("L").resize((width, height), Image.Resampling.BILINEAR), dtype=np.float32)).to(device)
            image /= 255.0
            out[i] = image
            i += 1
    return out
"""
PARSE = """
    images = []
    files = []
    for name, properties, pngs in heliostat_data_mapping:
        if name in heliostat_group.names:
            images.append((name, pngs))
            files.append((name, properties))
    flux = self.load_flux_from_png(heliostat_flux_path_mapping=images, heliostat_names=heliostat_group.names, resolution=bitmap_resolution, device=device)
    spots, rays, motors, mask, targets = self._parse_calibration_data(heliostat_calibration_mapping=files, heliostat_names=heliostat_group.names,
        target_name_to_index=scenario.solar_tower.target_name_to_index, power_plant_position=scenario.power_plant_position, device=device)
    return flux, spots, rays, motors, mask, targets
"""
SAMPLES = """
    counter: Counter[str] = Counter()
    rows = defaultdict(list)
    for name, paths in heliostat_calibration_mapping:
        n = min(len(paths), self.sample_limit or len(paths))
        for path in paths[:n]:
            with open(path, "r") as f:
                d = json.load(f)
            counter[name] += 1
            rows[name].append([target_name_to_index[d[{TARGET_NAME_KEY}]], d[{FOCAL_SPOT_KEY}][self.centroid_extraction_method], d[{SUN_AZIMUTH}], d[{SUN_ELEVATION}],
                [d[{MOTOR_POS_KEY}][{AXIS1_MOTOR_SAVE}], d[{MOTOR_POS_KEY}][{AXIS2_MOTOR_SAVE}]]])
    total = sum(counter[name] for name in heliostat_names)
    mask = torch.tensor([counter[name] for name in heliostat_names], dtype=torch.int32, device=device)
    targets = torch.empty(total, device=device, dtype=torch.long)
    spots = torch.empty((total, 3), dtype=torch.float64, device=device)
    azimuths = torch.empty(total, device=device)
    elevations = torch.empty(total, device=device)
    motors = torch.empty((total, 2), device=device)
    i = 0
    for name in heliostat_names:
        for target, spot, azimuth, elevation, motor in rows.get(name, []):
            targets[i] = target
            spots[i] = torch.tensor(spot, dtype=torch.float64, device=device)
            azimuths[i] = azimuth
            elevations[i] = elevation
            motors[i] = torch.tensor(motor, device=device)
            i += 1
    points = coordinates.convert_3d_points_to_4d_format(coordinates.convert_wgs84_coordinates_to_local_enu(spots, power_plant_position, device=device), device=device)
    suns = coordinates.convert_3d_points_to_4d_format(coordinates.azimuth_elevation_to_enu(azimuths, elevations, degree=True, device=device), device=device)
    rays = torch.tensor([0.0, 0.0, 0.0, 1.0], device=device) - suns
    return points, rays, motors, mask, targets
"""
MAPPING = """
    base = pathlib.Path(base_path)
    out = []
    for name in heliostat_names:
        folder = base / name / {SAVE_CALIBRATION}
        if not folder.exists():
            continue
        files = sorted(folder.glob(f"*{{CALIBRATION_PROPERTIES_IDENTIFIER!}}"))
        if randomize:
            random.Random(seed).shuffle(files)
        properties, images = [], []
        for file in files:
            number = file.stem.split("-")[0]
            image = folder / f"{number}-{image_variant}.png"
            if image.exists():
                properties.append(file)
                images.append(image)
                if len(properties) == number_of_measurements:
                    break
        if properties and images:
            out.append((name, properties, images))
    return out
"""
INIT = """
    self.sample_limit = sample_limit
"""
PINIT = """
    self.sample_limit = sample_limit
    if centroid_extraction_method not in [{UTIS_KEY}, {HELIOS_KEY}]:
        raise ValueError()
    self.centroid_extraction_method = centroid_extraction_method
"""


def check(repo, R):
    A = AlgL()
    R.rule("S05.flux", "measured bitmaps are stored in the order of the group's heliostats and of their files, at most sample_limit per heliostat, scaled to height x width and divided by 255")
    R.rule("S05.samples", "row i of targets, focal spots, suns and motor positions comes from one and the same file; rows follow the group's heliostats, the mask counts the rows of each heliostat")
    R.rule("S05.files", "every property file is paired with the image of the same measurement; selection is sorted or shuffled with the given seed")
    spec_compare(repo, R, "S05.flux", C + "load_flux_from_png", FLUX, A=A, layout=True)
    attrs_compare(repo, R, "S05.flux", C + "__init__", INIT, A=A)
    attrs_compare(repo, R, "S05.samples", P + "__init__", key(repo, PINIT), A=A, raises=True)
    spec_compare(repo, R, "S05.samples", P + "parse_data_for_reconstruction", PARSE, names=("flux", "focal spots", "rays", "motors", "mask", "targets"), A=A)
    spec_compare(repo, R, "S05.samples", P + "_parse_calibration_data", key(repo, SAMPLES), names=("focal spots", "rays", "motors", "mask", "targets"), A=A, layout=True)
    spec_compare(repo, R, "S05.files", B + "build_heliostat_data_mapping", key(repo, MAPPING), A=A)
    R.floor("S05.flux", 2)
    R.floor("S05.samples", 13)
    R.floor("S05.files", 1)

"""Conversions of sun angles, geodetic positions and parameter points into the frames the library uses, compared with reference formulas
component by component."""
from ..loops import AlgL, Canon, raise_condition, spec_compare
from ..spec import equiv, explain

C = "artist.geometry.coordinates."
AZEL = """
    az = azimuth.to(device=device, dtype=torch.float32)
    el = elevation.to(device=device, dtype=torch.float32)
    if az.shape != el.shape:
        raise ValueError("the shapes")
    if degree:
        el = torch.deg2rad(el)
        az = torch.deg2rad(az)
    az = torch.remainder(az, 2 * torch.pi)
    out = torch.zeros((az.shape[0], 3), device=device)
    out[:, 0] = slant_range * torch.cos(el) * torch.sin(az)
    out[:, 1] = -slant_range * torch.cos(el) * torch.cos(az)
    out[:, 2] = slant_range * torch.sin(el)
    return out
"""
WGS = """
    x = coordinates_to_transform.to(device=device)
    r = reference_point.to(device=device)
    a = 6378137.0
    b = 6356752.314245
    e2 = (a**2 - b**2) / a**2
    lat, lon = torch.deg2rad(x[:, 0]), torch.deg2rad(x[:, 1])
    lat0, lon0 = torch.deg2rad(r[0]), torch.deg2rad(r[1])
    w = 1 - e2 * torch.sin(lat) ** 2
    out = torch.zeros_like(x, dtype=torch.float32, device=device)
    out[:, 0] = (lon - lon0) * (a / torch.sqrt(w)) * torch.cos(lat)
    out[:, 1] = (lat - lat0) * (a * (1 - e2) / w ** 1.5)
    out[:, 2] = x[:, 2] - r[2]
    return out
"""
NORMAL = """
    shifted = points - torch.min(points, dim=0).values
    return (shifted + 1e-5) / torch.max(shifted + 2e-5, dim=0).values
"""


def check(repo, R):
    R.rule("G01.sun", "azimuth and elevation become east, north, up of the slant range, azimuth counted from south, in degrees on request")
    R.rule("G01.geodetic", "WGS84 offsets scale longitude by the prime-vertical radius and the cosine of latitude, latitude by the meridional radius, and subtract altitudes")
    R.rule("G01.unit", "normalised points are shifted by the minimum and divided by the maximum per column")
    A = AlgL()
    g, s = spec_compare(repo, R, "G01.sun", C + "azimuth_elevation_to_enu", AZEL, A=A)
    f = repo.func(C + "azimuth_elevation_to_enu")
    x = equiv(A, raise_condition(g, A, Canon(g.interp, A)), raise_condition(s, A, Canon(s.interp, A)))
    R.ob("G01.sun", "azimuth_elevation_to_enu.raises", x is None, f"{f.file}:{f.line}", "" if x is None else "condition of the error: " + explain(x)[:400])
    spec_compare(repo, R, "G01.geodetic", C + "convert_wgs84_coordinates_to_local_enu", WGS, A=A)
    spec_compare(repo, R, "G01.unit", C + "normalize_points", NORMAL, A=A)

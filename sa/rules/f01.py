"""Flux statistics: centre of mass, trapezoidal distribution, and the crop around the centre of mass, compared with reference formulas;
every axis argument is compared exactly."""
from ..loops import AlgL, spec_compare

F = "artist.flux.bitmap."
COM = """
    batch, H, W = bitmaps.shape
    p = bitmaps / (bitmaps.sum(dim=(1, 2), keepdim=True) + 1e-8)
    ug, eg = torch.meshgrid(torch.linspace(0, H - 1, H, device=device), torch.linspace(0, W - 1, W, device=device), indexing="ij")
    e = (eg.expand(batch, -1, -1) * p).sum(dim=(1, 2))
    u = (ug.expand(batch, -1, -1) * p).sum(dim=(1, 2))
    return torch.stack([e, u], dim=1)
"""
TRAP = """
    outside = torch.abs(torch.arange(total_width, device=device) - (total_width - 1) / 2) - plateau_width / 2
    if slope_width == 0:
        return (outside <= 0).to(dtype=torch.float32)
    return 1 - (outside / slope_width).clamp(min=0, max=1)
"""
CROP = """
    idx = target_area_indices.to(device)
    flux = flux_distributions.to(device)
    n, H, W = flux.shape
    p = flux / (flux.sum(dim=(2, 1), keepdim=True) + 1e-8)
    yg, xg = torch.meshgrid(torch.linspace(-1, 1, H, device=device), torch.linspace(-1, 1, W, device=device), indexing="ij")
    x = (xg.expand(n, -1, -1) * p).sum(dim=(2, 1))
    y = (yg.expand(n, -1, -1) * p).sum(dim=(2, 1))
    first = solar_tower.number_of_target_areas_per_type[0]
    P = idx < first
    size = torch.empty((n, 2), device=device)
    size[P] = solar_tower.target_areas[0].dimensions[idx[P]]
    c = solar_tower.target_areas[1]
    k = idx[~P] - first
    size[~P, 0] = c.radii[k] * c.opening_angles[k]
    size[~P, 1] = c.heights[k]
    M = torch.zeros(n, 2, 3, device=device)
    M[:, 0, 0] = crop_width / size[:, 0].clamp(min=1e-8)
    M[:, 1, 1] = crop_height / size[:, 1].clamp(min=1e-8)
    M[:, 0, 2] = x
    M[:, 1, 2] = y
    images = flux[:, None, :, :]
    grid = torch.nn.functional.affine_grid(M, size=list(images.shape), align_corners=True)
    return torch.nn.functional.grid_sample(images, grid, align_corners=True, padding_mode="zeros")[:, 0, :, :]
"""


def check(repo, R):
    R.rule("F01.centre", "the centre of mass is the intensity-weighted mean of pixel indices, east then up, and (0, 0) for an empty bitmap")
    R.rule("F01.trapezoid", "the trapezoid is one on the plateau, falls linearly over the slope and is zero outside")
    R.rule("F01.crop", "the crop samples the window of the given physical size around the centre of mass, relative to the size of the target hit")
    A = AlgL()
    spec_compare(repo, R, "F01.centre", F + "get_center_of_mass", COM, A=A)
    spec_compare(repo, R, "F01.trapezoid", F + "trapezoid_distribution", TRAP, A=A)
    spec_compare(repo, R, "F01.crop", F + "crop_flux_distributions_around_center", CROP, A=A)

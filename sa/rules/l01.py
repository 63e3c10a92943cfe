"""Loss functions and regularisers against their definitions, with their argument checks."""
from ..loops import AlgL, Canon, attrs_compare, raise_condition, spec_compare
from ..spec import equiv, explain

L = "artist.optim.loss."
G = "artist.optim.regularizers."
NEED = """
    if {0}:
        raise ValueError("a message")
"""
RED = NEED.format('"reduction_dimensions" not in kwargs')
LOSS = {
    "VectorLoss": ("torch.nn.MSELoss(reduction='none')", RED + """
    return self.loss_function(prediction, ground_truth).sum(dim=kwargs["reduction_dimensions"])
"""),
    "PixelLoss": ("torch.nn.MSELoss(reduction='none')", RED + """
    return self.loss_function(prediction, ground_truth).sum(dim=kwargs["reduction_dimensions"]) / ground_truth.sum(dim=(1, 2))
"""),
    "KLDivergenceLoss": ("torch.nn.KLDivLoss(reduction='none', log_target=True)", RED + """
    p = torch.nn.functional.normalize(prediction, p=1, dim=(1, 2), eps=1e-12)
    q = torch.nn.functional.normalize(ground_truth, p=1, dim=(1, 2), eps=1e-12)
    return self.loss_function(torch.log(p + 1e-12), torch.log(q + 1e-12)).sum(dim=kwargs["reduction_dimensions"])
"""),
    "AngleLoss": ("None", """
    p = torch.nn.functional.normalize(prediction[:, :3])
    q = torch.nn.functional.normalize(ground_truth[:, :3])
    return torch.acos((p * q).sum(dim=-1).clamp(-1.0, 1.0))
"""),
    "CosineSimilarityLoss": ("torch.nn.CosineSimilarity(dim=-1)", """
    return 1.0 - self.loss_function(prediction, ground_truth)
"""),
    "FocalSpotLoss": ("None", NEED.format('"device" not in kwargs or "target_area_indices" not in kwargs') + """
    device = get_device(device=kwargs["device"])
    def spot(image):
        return coordinates.bitmap_coordinates_to_target_coordinates(
            bitmap_coordinates=bitmap.get_center_of_mass(bitmaps=image, device=device),
            bitmap_resolution=torch.tensor([image.shape[2], image.shape[1]], device=device),
            solar_tower=self.scenario.solar_tower, target_area_indices=kwargs["target_area_indices"], device=device)
    return torch.norm(spot(prediction)[:, :3] - spot(ground_truth)[:, :3], dim=1)
"""),
}
REG = {
    "SmoothnessRegularizer": """
    d = current_control_points - original_control_points
    x = torch.nn.functional.pad(d, (0, 0, 1, 1, 1, 1), mode="replicate")
    lap = 4 * d - x[:, :, :-2, 1:-1, :] - x[:, :, 2:, 1:-1, :] - x[:, :, 1:-1, :-2, :] - x[:, :, 1:-1, 2:, :]
    return (lap**2).mean(dim=(2, 3, 4)).sum(dim=self.reduction_dimensions)
""",
    "IdealSurfaceRegularizer": """
    return ((current_control_points - original_control_points) ** 2).mean(dim=(2, 3, 4)).sum(dim=self.reduction_dimensions)
""",
}


def check(repo, R):
    R.rule("L01.loss", "each loss equals its definition on prediction and ground truth, symmetric inputs kept apart")
    R.rule("L01.arguments", "a missing keyword argument is reported, and only then")
    R.rule("L01.regularizer", "regularisers measure the change of control points per facet")
    R.rule("L01.reduce", "samples are grouped per heliostat in order, incomplete groups dropped")
    A = AlgL()
    opaque = ("artist.flux.bitmap.get_center_of_mass", "artist.geometry.coordinates.bitmap_coordinates_to_target_coordinates")
    for c, (fn, text) in LOSS.items():
        attrs_compare(repo, R, "L01.loss", L + c + ".__init__", f"    self.loss_function = {fn}\n" + ("    self.scenario = scenario\n" if c == "FocalSpotLoss" else ""), A=A)
        g, s = spec_compare(repo, R, "L01.loss", L + c + ".__call__", text, A=A, opaque=opaque)
        f = repo.func(L + c + ".__call__")
        x = equiv(A, raise_condition(g, A, Canon(g.interp, A)), raise_condition(s, A, Canon(s.interp, A)))
        R.ob("L01.arguments", f"{c}.raises", x is None, f"{f.file}:{f.line}", "" if x is None else "condition of the error: " + explain(x)[:400])
    for c, text in REG.items():
        attrs_compare(repo, R, "L01.regularizer", G + c + ".__init__", "    self.reduction_dimensions = reduction_dimensions\n", A=A)
        spec_compare(repo, R, "L01.regularizer", G + c + ".__call__", text, A=A)
    spec_compare(repo, R, "L01.reduce", L + "reduce_loss_per_sample", """
    n = int(loss_per_sample.numel() // number_of_samples_per_heliostat)
    x = reduction(loss_per_sample[: n * number_of_samples_per_heliostat].view(n, number_of_samples_per_heliostat))
    if isinstance(x, torch.Tensor):
        return x
    return x.values
""", A=A)
    known = set(LOSS) | {"Loss"}
    R.notes.append(f"loss classes without a reference: {sorted(x.rpartition('.')[2] for x in repo.all_subclasses(L + 'Loss') if x.rpartition('.')[2] not in known)}")

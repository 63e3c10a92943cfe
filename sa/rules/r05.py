"""Distribution of activations over ranks and batches, and the random distortions of each activation.  The index lists, data set, loader and
distribution are compared with reference bodies; seeding must dominate sampling."""
from ..q import *
from ..spec import spec_graph, equiv, explain, item
from ..loops import AlgL, Canon, final_attrs, spec_compare, attrs_compare
from ..vf import N, analyse
from ..repo import AnalysisError

S = "artist.raytracing.sampling."
RT = "artist.raytracing.heliostat_ray_tracer.HeliostatRayTracer."
SAMPLER = ["""
    active_ranks = min(number_of_active_heliostats, world_size)
    chosen = []
    if rank < active_ranks:
        for i in range(number_of_active_heliostats):
            if i % active_ranks == rank:
                chosen.extend(range(i * number_of_samples // number_of_active_heliostats, (i + 1) * number_of_samples // number_of_active_heliostats))
        self.rank_indices = chosen
    else:
        self.rank_indices = []
""", """
    active_ranks = min(number_of_active_heliostats, world_size)
    chosen = []
    if rank < active_ranks:
        for i in range(rank, number_of_active_heliostats, active_ranks):
            chosen.extend(range(i * number_of_samples // number_of_active_heliostats, (i + 1) * number_of_samples // number_of_active_heliostats))
        self.rank_indices = chosen
    else:
        self.rank_indices = []
"""]
SUN = """
    if distribution_parameters["distribution_type"] != "normal":
        raise ValueError("type")
    m = distribution_parameters.get("mean", 0.0)
    c = distribution_parameters.get("covariance", 4.3681e-06)
    self.distribution = torch.distributions.MultivariateNormal(torch.tensor([m, m], dtype=torch.float, device=device),
                                                               torch.tensor([[c, 0], [0, c]], dtype=torch.float, device=device))
    self.number_of_rays = number_of_rays
    self.distribution_parameters = distribution_parameters
"""
INIT = """
    self.scenario = scenario
    self.heliostat_group = heliostat_group
    self.blocking_active = blocking_active
    self.world_size = world_size
    self.rank = rank
    self.batch_size = batch_size
    self.bitmap_resolution = bitmap_resolution
    self.light_source = scenario.light_sources.light_source_list[0]
    self.distortions_dataset = DistortionsDataset(light_source=scenario.light_sources.light_source_list[0],
        number_of_points_per_heliostat=heliostat_group.active_surface_points.shape[1],
        number_of_active_heliostats=heliostat_group.number_of_active_heliostats, random_seed=random_seed)
    self.distortions_sampler = RestrictedDistributedSampler(number_of_samples=len(self.distortions_dataset),
        number_of_active_heliostats=(heliostat_group.active_heliostats_mask > 0).sum(), world_size=world_size, rank=rank)
    self.distortions_loader = DataLoader(self.distortions_dataset, batch_size=batch_size, shuffle=False, sampler=self.distortions_sampler)
"""


def check(repo, R):
    R.rule("R05.sampler", "each rank gets, for every heliostat index assigned to it round-robin, the consecutive block of samples; blocks of all ranks partition the samples")
    R.rule("R05.iterate", "iterating the sampler yields exactly these indices, and the tracer reports the same list")
    R.rule("R05.dataset", "sample i of the data set is the i-th pair of distortions; its length is the number of activations")
    R.rule("R05.sun", "distortions are drawn from the configured zero-correlation normal, sized activations x rays x points, u first")
    R.rule("R05.seed", "the generator is seeded with the given seed on every path before distortions are drawn")
    R.rule("R05.tracer", "the tracer wires mask, point count, seed, rank and batch size into data set, sampler and loader")
    R.rule("R05.rays", "rays with inconsistent sizes are rejected and others stored unchanged")
    A = AlgL()
    attrs_compare(repo, R, "R05.sampler", S + "RestrictedDistributedSampler.__init__", SAMPLER, A=A)
    spec_compare(repo, R, "R05.iterate", S + "RestrictedDistributedSampler.__iter__", "return iter(self.rank_indices)", A=A)
    spec_compare(repo, R, "R05.iterate", RT + "get_sampler_indices", "return torch.tensor(self.distortions_sampler.rank_indices, device=self.distortions_dataset.distortions_u.device)", A=A)
    attrs_compare(repo, R, "R05.dataset", S + "DistortionsDataset.__init__", """
    self.distortions_u, self.distortions_e = light_source.get_distortions(number_of_points=number_of_points_per_heliostat,
        number_of_active_heliostats=number_of_active_heliostats, random_seed=random_seed)
""", A=A)
    spec_compare(repo, R, "R05.dataset", S + "DistortionsDataset.__len__", "return self.distortions_u.shape[0]", A=A)
    spec_compare(repo, R, "R05.dataset", S + "DistortionsDataset.__getitem__", "return self.distortions_u[idx], self.distortions_e[idx]", names=("u", "e"), A=A)
    for c in sorted(repo.all_subclasses("artist.scene.light_source.LightSource")):
        if not c.endswith(".Sun"):
            R.notes.append(f"{c}: another light source; only seeding is judged")
        gd = repo.find_method(c, "get_distortions")
        if gd is None or gd.cls.qual != c:
            continue
        if c.endswith(".Sun"):
            attrs_compare(repo, R, "R05.sun", c + ".__init__", SUN, A=A, raises=True)
            spec_compare(repo, R, "R05.sun", c + ".get_distortions", """
    x = self.distribution.sample((number_of_active_heliostats, self.number_of_rays, number_of_points)).permute(3, 0, 1, 2)
    return x[0], x[1]
""", names=("u", "e"), A=A)
        g = analyse(repo, gd.qual, class_of_self=c)
        seeds = [e for e in g.events if e.kind == "call" and "manual_seed" in show(e.node) and not e.pc]
        draws = [e for e in g.events if e.kind == "call" and any(w in show(e.node).split("(")[0] for w in ("sample", "rand", "normal"))]
        good = [e for e in seeds if N("param", gd.qual, "random_seed") in e.node.subs() and "cuda" not in show(e.node).split("(")[0]]
        ok = bool(draws) and bool(good) and min(g.events.index(e) for e in good) < min(g.events.index(e) for e in draws)
        R.ob("R05.seed", f"{c.rpartition('.')[2]}.get_distortions", ok, f"{gd.file}:{gd.line}", "" if ok else "distortions are drawn without seeding the generator with random_seed first")
    attrs_compare(repo, R, "R05.tracer", RT + "__init__", INIT, A=A)
    attrs_compare(repo, R, "R05.rays", "artist.scene.rays.Rays.__init__", """
    if not (ray_directions.shape[:-1] == ray_magnitudes.shape and ray_directions.shape[-1] == 4):
        raise ValueError("sizes")
    self.ray_directions = ray_directions
    self.ray_magnitudes = ray_magnitudes
""", A=A, raises=True)

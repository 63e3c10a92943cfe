"""Rank information flow.  Every value gets a level (same on all ranks / same on the ranks of a heliostat group / rank-local); levels flow
through assignments, aliases, object fields, calls, branch and loop conditions and early exits.  The public optimisation entry points and the
set-up of the process groups are interpreted in nested mode (several ranks per heliostat group) and in plain distributed mode, and once without
processes.  Checked: no collective runs under a condition that differs between the ranks of its process group, group gradients are equal on the
group (global parameters: on all ranks) and averaged exactly once before every optimiser step, reductions start from their neutral element,
broadcasts come from a rank that owns the group, and everything returned or stored in the scenario is the same on every rank."""
from __future__ import annotations

from ..flow import Side, Single
from ..loops import AlgL, spec_compare
from ..ranks import PERSISTENT, Ranks, State, V
from ..repo import AnalysisError
from ..spec import equiv, explain, item
from ..vf import analyse

ENTRIES = [("artist.optim.kinematics_reconstructor.KinematicsReconstructor.reconstruct_kinematics", 1),
           ("artist.optim.surface_reconstructor.SurfaceReconstructor.reconstruct_surfaces", 1),
           ("artist.optim.aim_point_optimizer.AimPointOptimizer.optimize", 0),
           ("artist.util.env.setup_distributed_environment", 1)]
AVERAGE = "artist.optim.training.average_loss_within_heliostat_group"
MEAN = """
    losses = loss_per_heliostat.detach()
    if not ddp_setup["is_nested"]:
        return losses.mean()
    both = torch.stack([losses.sum(), torch.ones_like(losses).sum()])
    torch.distributed.all_reduce(both, op=torch.distributed.ReduceOp.SUM, group=ddp_setup["process_subgroup"])
    return both[0] / both[1]
"""
NAME = ["all ranks", "the ranks of a heliostat group", "each rank"]


def check(repo, R):
    R.rule("D01.collective", "every collective is reached by all ranks of its process group in the same order: no rank-dependent condition or loop around it")
    R.rule("D01.operands", "reductions of partially filled results start from the neutral element of the operation, broadcasts start from a rank that processes the group")
    R.rule("D01.gradients", "at every optimiser step the gradients are equal on the ranks that share the parameters and divided once by their number")
    R.rule("D01.results", "results and stored parameters are the same on every rank when an optimisation returns")
    R.rule("D01.serial", "without processes no collective is executed")
    R.rule("D01.average", "the loss that steers a heliostat group is the sum over all its heliostats divided by their number")
    ncoll = nsteps = 0
    for q, need in ENTRIES:
        f = repo.funcs.get(q)
        if f is None:
            raise AnalysisError(f"{q} not found")
        seen, colls, steps, reds, out = set(), {}, {}, {}, {}
        hist = True
        for nested in (True, False):
            r = Ranks(repo, True, nested)
            st = State()
            v = r.call(f, {"self": V()} if f.cls else {}, st, 0)
            seen |= r.analysed
            for k, b in r.coll.items():
                colls[k] = colls.get(k) or b
            for k, b in r.reductions.items():
                reds[k] = reds.get(k) or b
            for k, (lv, sc) in r.steps.items():
                o = steps.get(k, (0, ""))
                steps[k] = (max(o[0], lv if nested or need == 0 else 0), o[1] or sc)
            lv = max([v.lvl] + [x.lvl for x in v.elts or ()])
            if f.name.startswith("reconstruct") and v.elts and len(v.elts) == 2:
                hist = hist and v.elts[1].tag == "gathered"
            out["the returned values"] = max(out.get("the returned values", 0), lv)
            for k, x in st.fields.items():
                if k in PERSISTENT:
                    out[k] = max(out.get(k, 0), x)
        R.analysed(*sorted(seen))
        nm = q.split(".")[-2] + "." + f.name if f.cls else f.name
        for (qual, file, line, text), b in sorted(colls.items(), key=str):
            ncoll += 1
            short = qual.split(".")[-1] if qual.split(".")[-2][:1].islower() else ".".join(qual.split(".")[-2:])
            R.ob("D01.collective", f"{nm}: {short}: {text}", not b, f"{file}:{line}", b and f"{text} {b}; some ranks wait forever or exchange unrelated data")
        for (qual, file, line, text), b in sorted(reds.items(), key=str):
            R.ob("D01.operands", f"{nm}: {qual.split('.')[-1]}: {text}", not b, f"{file}:{line}", b)
        for (qual, file, line), (lv, sc) in sorted(steps.items()):
            nsteps += 1
            msg = sc or (f"the gradients at the optimiser step differ between {NAME[lv]}, but the parameters are shared" if lv > need else "")
            R.ob("D01.gradients", f"{nm}: {qual.split('.')[-1]}", not msg, f"{file}:{line}", msg)
        if f.name.startswith("reconstruct"):
            R.ob("D01.results", f"{nm}: loss histories", hist, f"{f.file}:{f.line}", "" if hist else "the loss histories returned are not those gathered from every rank")
        for k, lv in sorted(out.items()):
            R.ob("D01.results", f"{nm}: {k}", lv == 0, f"{f.file}:{f.line}", "" if lv == 0 else f"{k} differ between {NAME[lv]} after the call")
        if not f.cls:
            continue
        r = Ranks(repo, False, False)
        r.call(f, {"self": V()} if f.cls else {}, State(), 0)
        bad = sorted((k[1], k[2], k[3]) for k in r.coll)
        R.ob("D01.serial", nm, not bad, f"{bad[0][0]}:{bad[0][1]}" if bad else f"{f.file}:{f.line}", f"{bad[0][2]} runs without a process group" if bad else "")
    R.rule("D01.single", "the results in a group of one process are those without processes: what a collective reduces is what the single process uses")
    for q, _ in ENTRIES[:3]:
        f = repo.func(q)
        g, A = analyse(repo, q), AlgL()
        a, b = Side(repo, g, A, 6, True), Side(repo, g, A, 6, True, Single)
        n = 1 if f.name.startswith("reconstruct") else 5      # loss histories are gathered in lists
        for i in range(n):
            x = item(g.ret(), i)
            d = equiv(A, a.rw(x), b.rw(x))
            R.ob("D01.single", f"{f.name}.{i}", d is None, f"{f.file}:{f.line}", "" if d is None else "with one process result differs: " + explain(d)[:300])
    if AVERAGE in repo.funcs:
        spec_compare(repo, R, "D01.average", AVERAGE, MEAN)
    R.notes.append(f"{ncoll} collective calls and {nsteps} optimiser steps interpreted in nested and plain distributed mode")
    R.floor("D01.collective", 8)
    R.floor("D01.gradients", 3)

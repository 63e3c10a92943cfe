"""Typestate over the value-flow graphs of every function that aligns or ray traces: (1) alignment and ray tracing read
active heliostat data only under a guard that the mask passed in equals the activated mask, the guard fails by raising;
(2) alignment transforms active points and active normals by one and the same orientation, obtained from the kinematics for
the caller's inputs; (3) every alignment call in the package is preceded, in the same loop iteration and on the same group,
by an activation with the same mask and no other alignment in between; every ray tracing call is preceded by activation and
alignment of the same group with the same mask."""
from ..q import *
from ..vf import analyse
from ..repo import AnalysisError

GROUP = "artist.field.heliostat_group.HeliostatGroup"
TRACER = "artist.raytracing.heliostat_ray_tracer.HeliostatRayTracer"
ALIGN = {"align_surfaces_with_incident_ray_directions": "incident_ray_directions_to_orientations",
         "align_surfaces_with_motor_positions": "motor_positions_to_orientations"}
ACTIVE_DATA = ("active_surface_points", "active_surface_normals")


def equality_guard(c, mask):
    """atom says: group's recorded mask equals the mask argument (all elements)."""
    if c.k == "op" and c.a[0] in ("equal",):
        a, b = arg(c, "input"), arg(c, "other")
        xs = {peel(a), peel(b)}
        return mask in xs and any(x.k == "attr" and x.a[1] == "active_heliostats_mask" for x in xs)
    if c.k == "op" and c.a[0] == "all" and c.a[1]:
        e = first_arg(c)
        return e.k == "cmp" and e.a[0] == "==" and mask in (peel(e.a[1]), peel(e.a[2])) and has_attr(e, "active_heliostats_mask")
    return False


def transposed(n):
    n = peel(n, LAYOUT)
    if n.k == "op" and n.a[0] == "transpose":
        d = {num(v) for p, v in n.a[1] if p != "input"}
        if d in ({1, 2}, {-1, -2}):
            return first_arg(n)
    if n.k == "attr" and n.a[1] in ("mT",):
        return n.a[0]
    if n.k == "op" and n.a[0] in ("swapaxes", "swapdims"):
        return first_arg(n)
    return None


def rotated(v, base):
    """Orientation O when v == base @ O^T (row vectors), else None."""
    v = peel(v, LAYOUT)
    if v.k == "bin" and v.a[0] == "@":
        l, r = v.a[1], v.a[2]
        if l.k == "attr" and l.a[1] == base:
            return transposed(r)
        # (O @ X^T)^T
    t = transposed(v)
    if t is not None and t.k == "bin" and t.a[0] == "@":
        x = transposed(t.a[2])
        if x is not None and x.k == "attr" and x.a[1] == base:
            return t.a[1]
    if v.k == "op" and v.a[0] == "einsum":
        args = [x for p, x in v.a[1]]
        if any(x.k == "attr" and x.a[1] == base for x in args):
            o = [x for x in args if not (x.k == "attr" and x.a[1] == base) and x.k != "const"]
            return o[0] if len(o) == 1 else None
    return None


def all_before(a, e, grp):
    """a ran for every group in an earlier loop over the same collection that e's loop iterates."""
    la, le = loops(a), loops(e)
    return a.i < e.i and len(la) == len(le) and la[:-1] == le[:-1] and la != le and pcs(a) <= pcs(e) and any(x.k == "elem" for x in grp.subs())


def check(repo, R):
    R.rule("A02.guard", "active data are used only under 'passed mask equals activated mask', violation raises")
    R.rule("A02.same_orientation", "active points and normals are rotated by the same orientation, from the group's kinematics")
    R.rule("A02.arguments", "the orientation is computed for the caller's own inputs")
    R.rule("A02.protocol", "alignment follows an activation of the same group with the same mask in the same iteration, with no alignment in between")
    R.rule("A02.trace", "ray tracing follows activation and alignment of the same group with the same mask")
    if GROUP not in repo.classes or TRACER not in repo.classes:
        raise AnalysisError("anchor vanished: heliostat group or ray tracer class")
    n_guard = 0
    for c in [GROUP] + repo.all_subclasses(GROUP) + [TRACER]:
        for name, f in repo.classes[c].methods.items():
            if "active_heliostats_mask" not in f.params or name.startswith("_") or name == "activate_heliostats":
                continue
            if all(type(s).__name__ in ("Expr", "Raise") for s in f.node.body):
                continue
            g = analyse(repo, f.qual, class_of_self=c)
            R.analysed(f.qual)
            mask = N("param", f.qual, "active_heliostats_mask")
            where = f"{f.file}:{f.line}"
            uses = []
            for e in g.events:
                if e.kind in ("store_attr", "call", "return", "store_sub") and e.node is not None and has_attr(e.node, *ACTIVE_DATA, "active_motor_positions"):
                    uses.append(e)
            if not uses:
                continue
            n_guard += 1
            bad = [e for e in uses if not any(p and t == "raise" and equality_guard(cn, mask) for cn, p, t in e.pc)]
            R.ob("A02.guard", f.qual, not bad, bad[0].where() if bad else where,
                 "active heliostat data used without an earlier raising check that the given mask is the activated one")
            if name in ALIGN:
                kin = ALIGN[name]
                got = {}
                for loc, attr in list(g.final.heap):
                    if attr in ACTIVE_DATA:
                        got[attr] = g.interp.snap(g.final.heap[(loc, attr)], g.final)
                os_ = {}
                for a in ACTIVE_DATA:
                    ok = a in got
                    if ok:
                        os_[a] = rotated(got[a], a)
                        ok = os_[a] is not None
                    R.ob("A02.same_orientation", f"{f.qual}.{a}", ok, where,
                         f"{a} is not rotated exactly once by the transposed orientation: {show(got.get(a, const(None)))[:160]}")
                if len(os_) == 2 and all(v is not None for v in os_.values()):
                    o1, o2 = os_.values()
                    R.ob("A02.same_orientation", f"{f.qual}.same", o1 is o2, where, "points and normals are rotated by different orientations")
                    ok = o1.k == "rcall" and o1.a[0].endswith("." + kin)
                    if ok:
                        recv = arg(o1, "self")
                        ok = recv is not None and recv.k == "attr" and recv.a[1] == "kinematics"
                        for p, v in o1.a[1]:
                            if p in f.params and p not in ("self", "device"):
                                ok = ok and peel(v, {"to", "clone", "contiguous"}) is N("param", f.qual, p)
                    R.ob("A02.arguments", f.qual, ok, where, f"orientation is {show(o1)[:200]}, expected kinematics.{kin} of the caller's inputs")
    R.floor("A02.guard", 3)
    R.floor("A02.same_orientation", 6)

    # ---- call protocol in package code
    n_align = n_trace = 0
    seen_sites = set()
    for q, f in sorted(repo.funcs.items()):
        names = {x.attr for x in __import__("ast").walk(f.node) if isinstance(x, __import__("ast").Attribute)}
        if f.name.startswith("_") and f.name != "__init__" or not f.qual.startswith("artist.optim"):
            continue
        g = analyse(repo, q)
        al = [e for e in g.calls(*ALIGN)]
        tr = [e for e in g.calls("trace_rays")]
        if not al and not tr:
            continue
        R.analysed(q)
        act = g.calls("activate_heliostats")
        for e in al:
            n_align += 1
            grp, mask = arg(e.node, "self"), arg(e.node, "active_heliostats_mask")
            prev = [a for a in act if dominates(a, e) and loops(a) == loops(e) and arg(a.node, "self") is grp and arg(a.node, "active_heliostats_mask") is mask]
            ok = False
            for a in prev:
                between = [x for x in al if a.i < x.i < e.i and arg(x.node, "self") is grp]
                re_act = [x for x in act if a.i < x.i < e.i and arg(x.node, "self") is grp and arg(x.node, "active_heliostats_mask") is not mask]
                if not between and not re_act:
                    ok = True
            R.ob("A02.protocol", f"{e.stack[-1]} in {q}", ok, e.where(),
                 "alignment is not preceded in the same iteration by an activation of the same group with the same mask (or aligns twice)")
        for e in tr:
            n_trace += 1
            ray, mask = arg(e.node, "self"), arg(e.node, "active_heliostats_mask")
            grp = arg(ray, "heliostat_group") if ray is not None and ray.k == "rcall" else None
            ok = grp is not None
            why = "ray tracer is not built for a known group"
            if ok:
                a = [x for x in al if arg(x.node, "self") is grp and arg(x.node, "active_heliostats_mask") is mask
                     and (dominates(x, e) and loops(x) == loops(e)[: len(loops(x))] or all_before(x, e, grp))]
                inner = [x for x in act if arg(x.node, "self") is grp and (not a or a[-1].i < x.i < e.i)]
                ctor = [x for x in g.events if x.kind == "call" and x.node is ray]
                ok = bool(a) and not inner and bool(ctor) and any(a[-1].i < x.i < e.i for x in ctor)
                why = "ray tracing is not preceded by alignment of the same group with the same mask (ray tracer built in between)"
                if ok and a:
                    inc_t = arg(e.node, "incident_ray_directions")
                    inc_a = arg(a[-1].node, "incident_ray_directions")
                    if inc_a is not None and inc_t is not inc_a:
                        ok, why = False, "ray tracing uses other incident directions than the alignment"
            R.ob("A02.trace", f"{e.stack[-1]} in {q}", ok, e.where(), why)
    R.floor("A02.protocol", 6)
    R.floor("A02.trace", 5)

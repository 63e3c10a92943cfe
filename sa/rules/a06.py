"""Truth-table analysis of the selection between the two inverse-kinematics solutions: the per-heliostat predicates are
reduced to the four bound checks (lower/upper limit of each solution, all motors) and the selection expression is evaluated
over all their combinations; the warning condition must be exactly 'neither solution is within the limits'."""
import itertools

from ..q import *
from ..alg import Alg, pkey, from_key
from ..vf import analyse, N
from ..repo import AnalysisError
from .a03 import concrete

NON = "active_non_optimizable_parameters"


def check(repo, R):
    R.rule("A06.selection", "for every combination of bound checks, a solution within both motor limits is selected whenever one exists; rows are selected as a whole")
    R.rule("A06.limits", "the limits are the active actuators' minimum and maximum motor positions")
    R.rule("A06.warning", "a warning is issued exactly for heliostats for which neither solution is within the limits")
    n = 0
    for c, ci in concrete(repo):
        f = ci.methods.get("incident_ray_directions_to_orientations")
        if f is None:
            continue
        g = analyse(repo, f.qual, class_of_self=c)
        R.analysed(f.qual)
        where = f"{f.file}:{f.line}"
        sols = []
        for e in g.calls("angles_to_motor_positions"):
            if e.node not in sols:
                sols.append(e.node)
        if len(sols) != 2:
            R.ob("A06.selection", f.qual, False, where, f"{len(sols)} motor position solutions, 2 expected")
            continue
        n += 1
        self_ = N("param", f.qual, "self")
        stray = []
        atoms = {}

        def limit(x):
            b, cc = column(peel(x))
            if b is not None and peel(b).k == "attr" and peel(b).a[1] == NON:
                return num(cc)
            return None

        def bound(cj):
            """('L'|'U', k) for a bound check"""
            if cj.k == "cmp" and cj.a[0] == "<=":
                a, b = peel(cj.a[1]), peel(cj.a[2])
                if limit(a) == 2 and b in sols:
                    return ("L", sols.index(b))
                if limit(b) == 3 and a in sols:
                    return ("U", sols.index(a))
            return None

        def leaf(x):
            if x.k == "op" and x.a[0] == "all" and num(arg(x, "dim") or const(0)) in (1, -1):
                p = Poly.c(1)
                for cj in conjuncts(peel(first_arg(x))):
                    bd = bound(cj)
                    if bd is None:
                        stray.append(cj)
                        return None
                    p = p * Poly.atom(N("b", *bd))
                return p
            if x.k == "cmp" and bound(x):
                stray.append(x)      # element-wise selection would mix the two solutions
            return None
        A = Alg(leaf)

        def ev(node, asg):
            p = A.p(node)
            for a in list(p.atoms()):
                if a.k == "b":
                    p = p.subst(a, Poly.c(asg[(a.a[0], a.a[1])]))
            return p
        # selection node: where/phi over the two solutions
        sel = [x for e in g.events if e.node is not None for x in e.node.subs()
               if x.k == "op" and x.a[0] == "where" and {peel(arg(x, "input")), peel(arg(x, "other"))} == set(sols)]
        for (loc, attr), v in g.final.heap.items():
            vv = g.interp.snap(v, g.final)
            sel += [x for x in vv.subs() if x.k == "op" and x.a[0] == "where" and {peel(arg(x, "input")), peel(arg(x, "other"))} == set(sols)]
        sel = set(sel)
        keys = [("L", 0), ("U", 0), ("L", 1), ("U", 1)]
        if len(sel) != 1:
            R.ob("A06.selection", f.qual, False, where, f"{len(sel)} selections between the two solutions found")
            continue
        w = sel.pop()
        bad = []
        for bits in itertools.product((0, 1), repeat=4):
            asg = dict(zip(keys, bits))
            v = [asg[("L", k)] * asg[("U", k)] for k in (0, 1)]
            p = ev(arg(w, "condition"), asg)
            if not p.is_const():
                bad.append(("undetermined", bits))
                break
            k = sols.index(peel(arg(w, "input"))) if p.const() else sols.index(peel(arg(w, "other")))
            if any(v) and not v[k]:
                bad.append(bits)
        R.ob("A06.selection", f.qual, not bad, where, f"selects an invalid solution although a valid one exists, bounds {bad[:2]}; stray {[show(s)[:80] for s in stray[:2]]}")
        # the selected value is the one stored and iterated, unmodified
        stored = None
        for (loc, attr), v in g.final.heap.items():
            if attr == "active_motor_positions":
                stored = g.interp.snap(v, g.final)
        ok = stored is not None and any(x is w for x in stored.subs())
        if ok:
            lv = [x for x in phi_leaves(stored)]
            ok = all(x is w or (x.k == "op" and x.a[0] in ("zeros", "zeros_like")) or x.k == "loopvar" for x in lv)
        R.ob("A06.selection", f.qual + ".stored", ok, where, "stored motor positions are not the selected solution")
        # warning
        warns = [e for e in g.calls("warning", "warn") if e.kind == "call"]
        good = False
        for e in warns:
            cands = [x for cnd, p, t in e.pc for x in cnd.subs()]
            for x in cands:
                if x.k in ("un", "bin", "op", "cmp"):
                    try:
                        vals = [ev(x, dict(zip(keys, b))) for b in itertools.product((0, 1), repeat=4)]
                    except RecursionError:
                        continue
                    if all(p.is_const() for p in vals):
                        want = [int(not (b[0] * b[1]) and not (b[2] * b[3])) for b in itertools.product((0, 1), repeat=4)]
                        if [int(p.const()) for p in vals] == want:
                            good = True
        R.ob("A06.warning", f.qual, good, where, "no warning guarded by 'neither solution within limits'")
    if n < 1:
        raise AnalysisError("no inverse kinematics found")

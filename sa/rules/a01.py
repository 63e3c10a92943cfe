"""Value-flow graph of the activation routine (helpers inlined): every active per-heliostat field declared on the group,
its kinematics or its actuators is stored on every path, its value is the base field of the same object repeated by exactly
the mask that is recorded as the active mask (repeat_interleave along dimension 0), and neither a stored value nor a
condition reads a field that an earlier activation or alignment wrote."""
from ..q import *
from ..vf import analyse
from ..repo import AnalysisError

GROUP = "artist.field.heliostat_group.HeliostatGroup"
ACT = GROUP + ".activate_heliostats"
FAMILIES = {
    "group": (GROUP, ()),
    "kinematics": ("artist.field.kinematics.Kinematics", ("kinematics",)),
    "actuators": ("artist.field.actuators.Actuators", ("kinematics", "actuators")),
}
NOT_ROWS = {"active_heliostats_mask"}


def path_of(n):
    """('kinematics','actuators') for self.kinematics.actuators; None when not rooted at self."""
    p = []
    while n.k == "attr":
        p.append(n.a[1])
        n = n.a[0]
    if n.k == "param" and n.a[1] == "self":
        return tuple(reversed(p))
    return None


def declared_active(repo, base):
    out = {}
    for c in [base] + repo.all_subclasses(base):
        ci = repo.classes[c]
        for a in set(ci.attr_val) | set(ci.attr_ann):
            if a.startswith("active_") and a not in NOT_ROWS:
                out.setdefault(a, c)
    return out


def is_repeat(v, base_attr, owner_path, mask):
    """v == <owner>.<base_attr> repeated row-wise by mask (repeat_interleave, or indexing with repeated row numbers)."""
    v = peel(v)
    if v.k == "op" and v.a[0] == "repeat_interleave":
        b, r, d = arg(v, "input"), arg(v, "repeats"), arg(v, "dim")
        b = peel(b)
        return (b.k == "attr" and b.a[1] == base_attr and path_of(b.a[0]) == owner_path and peel(r) is mask and d is not None and num(d) == 0)
    idx = b = None
    if v.k == "sub":
        b, idx = v.a
        if idx.k == "tuple":
            if not all(full_slice(x) or is_const(x, Ellipsis) for x in idx.a[1:]):
                return False
            idx = idx.a[0]
    elif v.k == "op" and v.a[0] == "index_select" and num(arg(v, "dim")) == 0:
        b, idx = arg(v, "input"), arg(v, "index")
    if b is not None:
        idx = peel(idx)
        if not (b.k == "attr" and b.a[1] == base_attr and path_of(b.a[0]) == owner_path):
            return False
        if idx.k == "op" and idx.a[0] == "repeat_interleave":
            i, r = peel(arg(idx, "input")), arg(idx, "repeats")
            if r is None:
                return i is mask  # torch.repeat_interleave(mask)
            return i.k == "op" and i.a[0] == "arange" and len([p for p, _ in i.a[1] if p.isdigit()]) == 1 and peel(r) is mask
    return False


def check(repo, R):
    R.rule("A01.complete", "every declared active_* row field of the group/kinematics/actuators is assigned by activation on every normal path")
    R.rule("A01.pairing", "the assigned value is the same-named base field of the same object repeated row-wise by the recorded mask")
    R.rule("A01.history", "no stored value or deciding condition depends on state written by an earlier activation/alignment")
    R.rule("A01.count", "the recorded number of active heliostats is the sum of the recorded mask, on the group and on its kinematics")
    R.rule("A01.default", "without a mask every heliostat is activated exactly once")
    g = analyse(repo, ACT)
    R.analysed(ACT)
    st = g.final
    # the mask recorded
    finals = {}
    for e in g.stores():
        p = path_of(e.x[2])
        if p is not None:
            finals.setdefault((p, e.x[1]), []).append(e)
    heap = {}
    for (loc, attr), v in st.heap.items():
        p = path_of(loc if loc.k != "alloc" else g.interp.snap(loc, st))
        if p is not None:
            heap[(p, attr)] = g.interp.snap(v, st)
    where = f"{g.root.file}:{g.root.line}"
    if ((), "active_heliostats_mask") not in heap:
        R.ob("A01.complete", "active_heliostats_mask", False, where, "activation does not record the mask")
        return
    mask = peel(heap[((), "active_heliostats_mask")])
    # default mask
    leaves = phi_leaves(mask)
    ok = any(x.k == "param" and x.a[1] == "active_heliostats_mask" for x in leaves)
    R.ob("A01.pairing", "mask", ok, where, "recorded mask is not the mask argument")
    for conds, lf in leaves_where(mask):
        if lf.k == "param":
            continue
        lf = peel(lf)
        good = (lf.k == "op" and lf.a[0] == "ones" and has_attr(lf, "number_of_heliostats")) or \
               (lf.k == "op" and lf.a[0] == "full" and num(arg(lf, "fill_value")) == 1 and has_attr(lf, "number_of_heliostats")) or \
               (lf.k == "op" and lf.a[0] == "ones_like")
        R.ob("A01.default", "default mask", good, where, f"mask used when none is given is {show(lf)}")
    n = 0
    for fam, (base, path) in FAMILIES.items():
        if base not in repo.classes:
            raise AnalysisError(f"anchor vanished: class {base}")
        for a, c in sorted(declared_active(repo, base).items()):
            n += 1
            name = f"{'.'.join(('self',) + path)}.{a}"
            w = finals.get((path, a), [None])[-1]
            w = w.where() if w else where
            if (path, a) not in heap:
                R.ob("A01.complete", name, False, where, "declared active field is not updated by activation")
                continue
            v = heap[(path, a)]
            # on every path: no leaf is the initial (pre-activation) value
            stale = [x for _, x in leaves_where(v) if x.k == "attr" and x.a[1] == a]
            R.ob("A01.complete", name, not stale, w, "field keeps its previous value on some path")
            basename = a[len("active_"):]
            if basename == "heliostat_positions" or repo.attr_type(base, basename) is not None or True:
                pass
            for conds, lf in leaves_where(v):
                if lf.k == "attr" and lf.a[1] == a:
                    continue
                if is_repeat(lf, basename, path, mask):
                    R.ob("A01.pairing", name, True, w)
                    continue
                # an empty tensor is allowed when the path condition says that the base field itself is empty
                empty = lf.k == "op" and lf.a[0] in ("tensor", "empty", "zeros", "empty_like", "zeros_like")
                base_empty = any(mentions(cn, lambda x: x.k == "attr" and x.a[1] == basename and path_of(x.a[0]) == path) for cn, _ in conds)
                R.ob("A01.pairing", name, empty and base_empty, w,
                     f"value {show(lf)[:160]} is not {basename} repeated by the recorded mask" if not empty else
                     "the field is emptied although its base field is not known to be empty")
            bad = []
            for x in v.subs():
                if x.k == "attr" and path_of(x.a[0]) is not None and (x.a[1].startswith("active_") or x.a[1].startswith("number_of_active")):
                    bad.append(x)
            R.ob("A01.history", name, not bad, w, f"depends on previously activated state {[show(b) for b in bad[:3]]}")
    for path in ((), ("kinematics",)):
        v = heap.get((path, "number_of_active_heliostats"))
        good = False
        if v is not None:
            x = v
            while x.k == "op" and x.a[0] in ("item", "int", "sum") and x.a[1]:
                x = first_arg(x)
            good = peel(x) is mask and bool(calls_in(v, "sum"))
            if v.k == "sub":
                good = False
            # number of rows of an activated field is the same quantity
            if not good and (calls_in(v, "len") or has_attr(v, "shape") or calls_in(v, "size")):
                good = any(c.k == "op" and c.a[0] == "repeat_interleave" and peel(arg(c, "repeats") or c) is mask for c in v.subs())
        R.ob("A01.count", ".".join(("self",) + path), good, where, f"number of active heliostats is {show(v) if v is not None else 'not recorded'}")
    R.floor("A01.complete", 11)
    R.floor("A01.history", 11)

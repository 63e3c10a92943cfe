"""Train/test split.  Every field of the returned split, the refused inputs and the two masks are compared with a reference: the samples of
heliostat i occupy one block, the first n - t of it are training and the last t are test samples, t = max(1, int(n * fraction)); masks are
clamped so that exactly the samples of the split remain.  Disjointness and coverage follow from the two index sets."""
from __future__ import annotations

from ..loops import AlgL, Canon, raise_condition
from ..q import *
from ..repo import AnalysisError
from ..spec import equiv, explain, spec_graph
from ..alg import pkey
from ..vf import N, analyse, arg, const, first_arg, is_const, num, show

Q = "artist.optim.training.train_test_split"
HEAD = """
    if active_heliostats_mask[active_heliostats_mask > 0].unique().numel() > 1:
        raise ValueError("samples")
    total = int(active_heliostats_mask.sum())
    count = int((active_heliostats_mask > 0).sum())
    n = int(total / count)
    t = max(1, int(n * test_fraction))
    train = (torch.arange(count)[:, None] * n + torch.arange(n - t)).reshape(-1)
    test = (torch.arange(count)[:, None] * n + torch.arange(n - t, n)).reshape(-1)
"""
FIELDS = {"number_of_samples_per_heliostat": "n", "number_of_test_samples": "t", "number_of_train_samples": "n - t",
          "train_indices": "train", "test_indices": "test",
          "active_heliostats_mask_train": "torch.clamp(active_heliostats_mask - t, min=0)",
          "active_heliostats_mask_test": "torch.clamp(active_heliostats_mask - (n - t), min=0)"}
for a in ("flux_measured", "focal_spots_measured", "incident_ray_directions", "motor_positions", "target_area_indices"):
    FIELDS[a + "_train"] = f"{a}[train]"
    FIELDS[a + "_test"] = f"{a}[test]"


class AlgSplit(AlgL):
    """Under the checked precondition (equal counts), total = count * n; ranges are shifted and scaled to start at zero with step one."""

    def _px(self, n):
        if n.k == "op" and n.a[0] in ("int", "item"):
            x = self.p(first_arg(n))
            return x if is_int(x) else Poly.atom(N("op", "int", (("input", pkey(x)),)))
        if n.k == "op" and n.a[0] == "sum" and len(n.a[1]) == 1 and first_arg(n).k == "param" and first_arg(n).a[1] == "active_heliostats_mask":
            return Poly.atom(COUNT) * Poly.atom(EACH)
        if n.k == "op" and n.a[0] == "sum" and len(n.a[1]) == 1 and first_arg(n).k == "cmp":
            x = first_arg(n)
            if self.p(x) == self.p(N("cmp", "<", const(0), N("param", Q, "active_heliostats_mask"))):
                return Poly.atom(COUNT)
        if n.k == "op" and n.a[0] in ("reshape", "flatten", "view", "ravel"):
            rest = [v for _, v in n.a[1][1:]]
            if all(num(v) == -1 or (v.k in ("tuple", "list") and len(v.a) == 1 and num(v.a[0]) == -1) for v in rest):
                return self.p(self.axes(first_arg(n), 0))
            return Poly.atom(N("op", "reshape", (("input", self.argn(first_arg(n))), ("shape", N("tuple", *rest)))))
        if n.k == "op" and n.a[0] == "#axis":
            return self.ranges(first_arg(n), num(arg(n, "axis")))
        if n.k == "op" and n.a[0] == "arange":
            return self.ranges(n, 0)
        return super()._px(n)

    def axes(self, n, k):
        """Number the axes of the ranges in a broadcast sum, counted from the last one."""
        if n.k == "bin":
            return N("bin", n.a[0], self.axes(n.a[1], k), self.axes(n.a[2], k))
        if n.k == "sub":
            ps = idx_parts(n.a[1])
            if all(is_const(q, None) or full_slice(q) or is_const(q, Ellipsis) for q in ps):
                after = len(ps) - 1 - max([i for i, q in enumerate(ps) if not is_const(q, None)], default=-1)
                if any(not is_const(q, None) for q in ps):
                    return self.axes(n.a[0], k + after)
                return self.axes(n.a[0], k)
        if n.k == "op" and n.a[0] == "unsqueeze":
            d = num(arg(n, "dim"))
            if d in (1, -1):
                return self.axes(first_arg(n), k + 1)
            if d == 0:
                return self.axes(first_arg(n), k)
        if n.k == "op" and n.a[0] == "arange":
            return N("op", "#axis", (("input", n), ("axis", const(k))))
        return n

    def ranges(self, n, k):
        if True:
            a = [v for k, v in n.a[1] if k not in ("device", "dtype")]
            lo, hi, st = Poly.c(0), self.p(a[0]), Poly.c(1)
            if len(a) > 1:
                lo, hi = hi, self.p(a[1])
            if len(a) > 2:
                st = self.p(a[2])
            m = (hi - lo) * st.inv() if st != Poly.c(1) else hi - lo
            if m is not None and is_int(m):
                return lo + st * Poly.atom(N("op", "arange", (("end", pkey(m)), ("axis", const(k)))))
        return Poly.atom(N("op", "arange", (("args", N("tuple", *[self.argn(x) for x in a])), ("axis", const(k)))))


COUNT, EACH = N("global", "#heliostats"), N("global", "#samples per heliostat")


def is_int(p):
    return all(c == int(c) and all(e > 0 and e == int(e) and (a in (COUNT, EACH) or (a.k == "op" and a.a[0] in ("int", "max", "min", "len"))) for a, e in k) for k, c in p.t.items())


def fields(n):
    """Keyword arguments of the returned container."""
    return dict(n.a[1]) if n.k == "rcall" else {}


def check(repo, R):
    R.rule("O03.fields", "every field of the split equals the reference: per heliostat block the leading samples train, the trailing samples test, in all tensors alike")
    R.rule("O03.refuse", "heliostats with different numbers of samples are rejected, nothing else is")
    f = repo.func(Q)
    where = f"{f.file}:{f.line}"
    g = analyse(repo, Q)
    R.analysed(Q)
    A = AlgSplit()
    cg = Canon(g.interp, A)
    r = g.ret()
    have = fields(r)
    if not have:
        raise AnalysisError("the returned container was not recognised: " + show(r)[:200])
    for k, t in FIELDS.items():
        s = spec_graph(repo, Q, HEAD + f"    return {t}\n")
        cs = Canon(s.interp, A)
        if k not in have:
            R.ob("O03.fields", f"train_test_split.{k}", False, where, "field is not set")
            continue
        x = equiv(A, cg.rw(have[k]), cs.rw(s.ret()))
        R.ob("O03.fields", f"train_test_split.{k}", x is None, where, "" if x is None else explain(x)[:400])
    s = spec_graph(repo, Q, HEAD + "    return n\n")
    cs = Canon(s.interp, A)
    a, b = raise_condition(g, A, cg), raise_condition(s, A, cs)
    R.ob("O03.refuse", "train_test_split", a == b, where, "" if a == b else "the rejected inputs are not those with different numbers of samples per heliostat")
    R.floor("O03.fields", 17)

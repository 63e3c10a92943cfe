"""Homogeneous-kind analysis (points carry 1, directions 0): the converters append the right constant; every value whose
homogeneous component can be derived through conversions, sums, differences, scalings, normalisation, rigid transforms and
literals must agree with the kind of the argument, attribute, or result it flows into; only directions are normalised and
only differences with w = 0 are used as directions."""
import re

from ..q import *
from ..vf import analyse, N
from ..repo import AnalysisError

CO = "artist.geometry.coordinates."
POINT = {"surface_points", "active_surface_points", "surface_points_with_facets_list", "aim_points", "centers", "center", "positions", "position", "heliostat_positions",
         "active_heliostat_positions", "heliostat_position", "focal_spots", "focal_spots_measured", "light_source_positions", "light_source_position", "homogeneous_origin",
         "concentrator_origins", "ray_origins", "points_at_ray_origins", "surface_points_all", "receiver_center", "reflection_points", "rays_origins"}
DIRECTION = {"surface_normals", "active_surface_normals", "incident_ray_directions", "incident_ray_direction", "ray_directions", "normals", "normal", "normal_vector", "normal_vectors",
             "axes", "axis", "initial_orientations", "active_initial_orientations", "initial_orientation", "canting", "facet_translations", "facet_translation_vectors", "active_canting",
             "active_facet_translations", "kinematics_standard_orientation", "reflected_ray_directions", "preferred_reflection_directions", "translation_vector",
             "surface_normals_with_facets_list", "incident_ray_directions_4d"}
KEEP = {"to", "clone", "contiguous", "float", "view", "reshape", "unsqueeze", "squeeze", "expand", "flatten", "expand_as", "repeat_interleave", "repeat", "cast", "typing.cast", "detach",
        "index_select", "requires_grad_", "stack", "tile", "mean"}


def kind_of(name):
    if name in POINT:
        return 1
    if name in DIRECTION:
        return 0
    return None


class W:
    def __init__(self, repo):
        self.repo = repo
        self.memo = {}

    def w(self, n):
        """homogeneous component: 0, 1, other number, or None (unknown)"""
        if n in self.memo:
            return self.memo[n]
        self.memo[n] = None
        r = self.memo[n] = self._w(n)
        return r

    def _w(self, n):
        k = n.k
        if k == "rcall":
            if n.a[0] == CO + "convert_3d_points_to_4d_format":
                return 1
            if n.a[0] == CO + "convert_3d_directions_to_4d_format":
                return 0
            if n.a[0] == CO + "bitmap_coordinates_to_target_coordinates" or n.a[0].endswith("get_centers_of_target_areas"):
                return 1
            return None
        if k in ("param", "attr"):
            return kind_of(n.a[1])
        if k == "sub":
            ps = idx_parts(n.a[1])
            if n.a[0].k == "rcall" and not n.a[0].a[0].endswith("_to_4d_format"):
                return None
            last = ps[-1]
            if any(isinstance(num(p), int) for p in ps) and len(ps) > 1 and isinstance(num(last), int):
                return None
            if last.k == "slice" and not full_slice(last) and len(ps) > 1:
                return None
            if len(ps) == 1 and last.k == "slice" and num(last.a[1]) == 3:
                return None
            if isinstance(num(last), int) and n.a[0].k in ("attr", "param", "tuple", "list", "op"):
                return self.w(n.a[0]) if n.a[0].k in ("attr", "param") else None
            return self.w(n.a[0])
        if k == "bin":
            op, l, r = n.a
            if op in "+-":
                a, b = self.w(l), self.w(r)
                if a is None or b is None:
                    return None
                return a + b if op == "+" else a - b
            if op == "*":
                a, b = self.w(l), self.w(r)
                if a == 0 and b is None or b == 0 and a is None:
                    return 0
                return None
            if op == "/":
                return 0 if self.w(l) == 0 else None
            if op == "@":
                a = self.w(l)
                if a in (0, 1) and self.homog(r):
                    return a
                b = self.w(r)
                if b in (0, 1) and self.homog(l):
                    return b
                return None
        if k == "un" and n.a[0] == "-":
            a = self.w(n.a[1])
            return None if a is None else -a
        if k == "op":
            nm = n.a[0]
            if nm in KEEP:
                x = first_arg(n)
                if x is not None and x.k in ("list", "tuple"):
                    ws = {self.w(y) for y in x.a}
                    return ws.pop() if len(ws) == 1 else None
                return self.w(x) if x is not None else None
            if nm.endswith("normalize"):
                return 0 if self.w(first_arg(n)) == 0 else None
            if nm == "tensor" and first_arg(n).k == "list" and len(first_arg(n).a) == 4:
                return num(first_arg(n).a[3])
            if nm == "cat" and num(arg(n, "dim")) in (0, None) and first_arg(n).k in ("list", "tuple"):
                ws = {self.w(y) for y in first_arg(n).a}
                return ws.pop() if len(ws) == 1 else None
            if nm == "cat" and num(arg(n, "dim")) == -1 and first_arg(n).k in ("list", "tuple"):
                last = peel(first_arg(n).a[-1])
                if last.k == "op" and last.a[0] in ("ones", "ones_like", "new_ones"):
                    return 1
                if last.k == "op" and last.a[0] in ("zeros", "zeros_like", "new_zeros"):
                    return 0
        if k == "phi":
            a, b = self.w(n.a[1]), self.w(n.a[2])
            return a if a == b else None
        if k == "update":
            # a column store on the homogeneous column decides it
            ps = idx_parts(n.a[1])
            if num(ps[-1]) in (3, -1) and len(ps) > 1:
                v = peel(n.a[2])
                if num(v) is not None:
                    return num(v)
                if v.k == "op" and v.a[0].startswith("ones"):
                    return 1
                if v.k == "op" and v.a[0].startswith("zeros"):
                    return 0
                return None
            if ps[-1].k == "slice" and not full_slice(ps[-1]) and len(ps) > 1:
                return self.w(n.a[0])
            if isinstance(num(ps[-1]), int) and len(ps) > 1 and 0 <= num(ps[-1]) < 3:
                return self.w(n.a[0])
            a, b = self.w(n.a[0]), self.w(n.a[2])
            if n.a[0].k == "op" and n.a[0].a[0] in ("empty", "zeros", "empty_like", "zeros_like"):
                return b
            return a if a == b else None
        if k in ("loopout",):
            a = self.w(n.a[3])
            if n.a[2].k == "undef":
                return a
            return a if a is not None and a == self.w(n.a[2]) else None
        if k == "elem":
            return self.w(n.a[0])
        return None

    def homog(self, m):
        m = peel(m)
        if m.k == "op" and m.a[0] == "transpose" or m.k == "attr" and m.a[1] in ("mT", "T"):
            return self.homog(first_arg(m) if m.k == "op" else m.a[0])
        if m.k == "rcall" and ("orientations" in m.a[0] or ".transforms." in m.a[0]):
            return True
        if m.k == "loopout" and m.a[2].k == "undef":
            return self.homog(m.a[3])
        if m.k == "bin" and m.a[0] == "@":
            return self.homog(m.a[1]) and self.homog(m.a[2])
        if m.k == "op" and m.a[0] == "eye":
            return True
        return False


def width_test(c, p):
    """A condition on the length of the last axis of p against three."""
    if not mentions(c, lambda x: num(x) == 3) or p not in c.subs():
        return False
    for x in c.subs():
        if x.k == "op" and x.a[0] in ("size", "shape") and len(x.a[1]) >= 1 and first_arg(x) is p:
            d = num(arg(x, "dim"))
            if d is not None and d != -1:
                return False
        if x.k == "sub" and (x.a[0].k == "attr" and x.a[0].a[1] == "shape" or x.a[0].k == "op" and x.a[0].a[0] in ("size", "shape")):
            d = num(x.a[1])
            if isinstance(d, int) and d != -1:
                return False
    return True


def check(repo, R):
    R.rule("A07.converters", "points get 1, directions 0 appended on the last axis; other widths are rejected")
    R.rule("A07.sink", "a value with derived homogeneous component flows only into arguments/attributes of the same kind")
    R.rule("A07.direction", "normalised or negated ray directions have homogeneous component 0")
    for name, par, ones in (("convert_3d_points_to_4d_format", "points", "ones"), ("convert_3d_directions_to_4d_format", "directions", "zeros")):
        f = repo.func(CO + name)
        g = analyse(repo, f.qual)
        R.analysed(f.qual)
        v = g.ret()
        where = f"{f.file}:{f.line}"
        P = N("param", f.qual, par)
        ok = False
        if v.k == "op" and v.a[0] == "cat" and num(arg(v, "dim")) == -1 and first_arg(v).k in ("list", "tuple") and len(first_arg(v).a) == 2:
            a, b = first_arg(v).a
            b = peel(b, {"to", "clone", "contiguous", "expand"})
            ok = peel(a, {"to"}) is P and b.k == "op" and (b.a[0] in (ones, ones + "_like", "new_" + ones) or
                                                           (b.a[0] in ("full", "full_like", "new_full") and num(arg(b, "fill_value")) == (1 if ones == "ones" else 0)))
        if v.k == "op" and v.a[0].endswith(".pad"):
            ok = peel(first_arg(v)) is P and (num(arg(v, "value")) or 0) == (1 if ones == "ones" else 0)
        R.ob("A07.converters", name, ok, where, f"returns {show(v)[:200]}")
        rs = [e for e in g.events if e.kind == "raise"]
        guard = any(t == "raise" and width_test(c, P) for e in g.events if e.kind == "return" for c, p, t in e.pc)
        R.ob("A07.converters", name + ".width", guard, where, "no raising check that the input has three components")
    n = 0
    for q, f in sorted(repo.funcs.items()):
        g = analyse(repo, q)
        w = W(repo)
        seen = set()
        for e in g.events:
            if e.kind == "call" and e.node is not None and e.node.k == "rcall":
                callee_f = repo.funcs.get(e.node.a[0])
                for pn, v in e.node.a[1]:
                    kd = kind_of(pn)
                    if kd is None or pn == "self":
                        continue
                    x = w.w(v)
                    if x is None or v.k in ("param",):
                        continue
                    n += 1
                    R.analysed(q)
                    R.ob("A07.sink", f"{local_name(e.node.a[0])}({pn}) in {q}", x == kd, e.where(),
                         f"argument '{pn}' expects {'points' if kd else 'directions'} (w={kd}) but the value has w={x}: {show(v)[:120]}")
            if e.kind == "store_attr" and kind_of(e.x[1]) is not None and e.node is not None and e.node.k != "param":
                x = w.w(e.node)
                if x is not None:
                    n += 1
                    R.analysed(q)
                    R.ob("A07.sink", f".{e.x[1]} in {q}", x == kind_of(e.x[1]), e.where(), f"attribute '{e.x[1]}' stores a value with w={x}")
            if e.kind == "call" and e.node is not None and e.node.k == "op" and e.node.a[0].endswith("normalize") and e.node not in seen:
                seen.add(e.node)
                x = w.w(first_arg(e.node))
                if x is not None:
                    R.ob("A07.direction", f"normalize in {q}", x == 0, e.where(), f"a vector with homogeneous component {x} is normalised as a direction")
    R.notes.append(f"{n} sinks with a derived homogeneous component")
    R.floor("A07.sink", 8)

"""Agreement of the scenario file's writer and reader.  The dictionaries of the configuration classes are interpreted into a table
file path -> constructor argument; the loader's value-flow graph (all parsers inlined) gives, for every loaded attribute, tensor
row and tensor column, the file path it is read from.  The composition must be the identity of meaning: every configuration
argument arrives in the attribute, row and column that stands for it, for prototypes and individual heliostats alike; every path
read is written; unconditional reads are written unconditionally; optional values are used exactly when present; rows are aligned
with their names."""
from ..loadgraph import *

TRANS = ["first_joint_translation_e", "first_joint_translation_n", "first_joint_translation_u", "second_joint_translation_e",
         "second_joint_translation_n", "second_joint_translation_u", "concentrator_translation_e", "concentrator_translation_n",
         "concentrator_translation_u"]
ROT = ["first_joint_tilt_n", "first_joint_tilt_u", "second_joint_tilt_e", "second_joint_tilt_n"]
LIN_N = {1: ("ActuatorConfig.clockwise_axis_movement", None), 2: ("ActuatorConfig.min_max_motor_positions", 0),
         3: ("ActuatorConfig.min_max_motor_positions", 1), 4: ("ActuatorParameters.increment", None),
         5: ("ActuatorParameters.offset", None), 6: ("ActuatorParameters.pivot_radius", None)}
LIN_O = {0: ("ActuatorParameters.initial_angle", None), 1: ("ActuatorParameters.initial_stroke_length", None)}
IDEAL_N = {k: LIN_N[k] for k in (1, 2, 3)}
PLANAR = {("centers", None): "TargetAreaPlanarConfig.center", ("normals", None): "TargetAreaPlanarConfig.normal_vector",
          ("dimensions", 0): "TargetAreaPlanarConfig.plane_e", ("dimensions", 1): "TargetAreaPlanarConfig.plane_u"}
CYL = {(p, None): "TargetAreaCylindricalConfig." + q for p, q in dict(centers="center", normals="normal", axes="axis", radii="radius",
                                                                        heights="height", opening_angles="opening_angle").items()}
FACET = dict(control_points="FacetConfig.control_points", degrees="FacetConfig.degrees", translation_vector="FacetConfig.translation_vector",
             canting="FacetConfig.canting")


def rows(n):
    """[(row index node or None, column or None, value)] of a tensor filled row by row."""
    n = peel(n)
    if n.k == "op" and n.a[0] in ("tensor", "stack", "as_tensor") and n.a[1]:
        c = first_arg(n)
        if c.k == "comp":
            return [(None, None, c.a[1])]
        if c.k == "loopout":
            return rows(c)
    if n.k == "comp":
        return [(None, None, n.a[1])]
    if n.k == "loopout":
        n = n.a[3]
    out = []
    if n.k == "append":
        return [(None, None, n.a[1])]
    while n.k == "update":
        parts = [p for p in idx_parts(n.a[1]) if not full_slice(p) and not is_const(p, Ellipsis)]
        out.append((parts, n.a[2]))
        n = n.a[0]
    return [(p[0] if p and p[0].k != "const" else None, next((cval(x) for x in p if x.k == "const"), None), v) for p, v in reversed(out)]


def strip_keys(n):
    while n.k == "op" and n.a[0] in ("keys", "list", "enumerate") and n.a[1]:
        n = first_arg(n)
    return n


def cells(n):
    """{(row, col): value} of a matrix written as m[row const, loop index] = value; row may be alone."""
    n = peel(n)
    out, extra = {}, []
    while n.k in ("update", "loopout"):
        if n.k == "loopout":
            n = n.a[3]
            continue
        parts = [p for p in idx_parts(n.a[1]) if not full_slice(p) and not is_const(p, Ellipsis)]
        if parts and parts[0].k == "const":
            key = cval(parts[0])
            if len(parts) == 1 or parts[1].k in ("idx", "elem"):
                out.setdefault(key, (parts[1] if len(parts) > 1 else None, n.a[2]))
            else:
                extra.append((key, parts[1], n.a[2]))
        n = n.a[0]
    return out, extra


def check(repo, R):
    R.rule("S01.value", "a configuration argument is loaded into exactly the attribute / row / column that stands for it")
    R.rule("S01.path", "every file path the loader reads is written by the generator")
    R.rule("S01.required", "a path read unconditionally is written whenever its section is")
    R.rule("S01.optional", "an optional value is used exactly when it is present, otherwise 0 (prototype values are not mixed in)")
    R.rule("S01.none", "configuration arguments that default to None are written only when given")
    R.rule("S01.aligned", "row i belongs to name i")
    W = Writer(repo)
    L = LoadGraph(repo)
    g = L.g
    R.analysed(*W.functions, *L.functions)
    by_leaf = {}
    for p, (leaf, conds, where) in W.schema.items():
        by_leaf.setdefault(leaf, []).append(p)

    def written(path):
        return W.schema.get(path)

    def match(value, leaf, prefix, label, where, elem_idx=None, root=None):
        v = value if isinstance(value, tuple) else L.value(value)
        if v is None:
            R.ob("S01.value", label, False, where, f"loaded value {show(value)[:120]} is not a value of the file; expected {leaf}")
            return None
        path, elems, ei = v
        w = written(path)
        ok = w is not None and w[0] == leaf and path[0] == prefix and ei == elem_idx
        R.ob("S01.value", label, ok, where, f"loads {'/'.join(path)}{'' if ei is None else '[%d]' % ei}, which holds {w[0] if w else 'nothing the generator writes'}; "
             f"expected {prefix}:{leaf}{'' if elem_idx is None else '[%d]' % elem_idx}")
        return v

    # ------------------------------------------------------------ tower
    def where_of(e):
        return e.where()
    st = [e for e in g.events if e.kind == "call" and e.node.k == "rcall" and e.node.a[0].endswith(".SolarTower")]
    for cls, spec, prefix, pos in (("TowerTargetAreasPlanar", PLANAR, "target_areas_planar", 0), ("TowerTargetAreasCylindrical", CYL, "target_areas_cylindrical", 1)):
        ctor = [e for e in g.events if e.kind == "call" and e.node.k == "rcall" and e.node.a[0].endswith("." + cls)]
        if not ctor:
            raise AnalysisError(f"anchor vanished: {cls} is not built by the loader")
        pre = next((p for p in W.prefixes if p == repo.const("artist.util.constants." + ("target_area_planar_key" if pos == 0 else "target_area_cylindrical_key"))[1]), prefix)
        e = ctor[0]
        names = rows(arg(e.node, "names"))
        name_coll = strip_keys(names[-1][2].a[0]) if names and names[-1][2].k == "elem" else None
        nm = peel(arg(e.node, "names"))
        if name_coll is None and nm.k == "op" and nm.a[0] in ("list", "sorted", "keys"):
            name_coll = strip_keys(nm)
        for (param, col), leaf in spec.items():
            a = arg(e.node, param)
            rs = [r for r in rows(a) if r[1] == col] if a is not None else []
            label = f"{cls}.{param}{'' if col is None else '[:, %d]' % col}"
            if not rs:
                R.ob("S01.value", label, False, e.where(), f"no row is loaded from the file: {show(a)[:120]}")
                continue
            v = match(rs[-1][2], leaf, pre, label, e.where())
            if v:
                ri = rs[-1][0]
                ok = bool(v[1]) and name_coll is not None and strip_keys(v[1][0].a[0]) is name_coll and (ri is None or ri.k == "idx" and strip_keys(ri.a[0]) is name_coll)
                R.ob("S01.aligned", label, ok, e.where(), "rows are not filled in the order of the names")

    # ------------------------------------------------------------ power plant
    sc = [e for e in g.events if e.kind == "return" and e.node.k == "rcall" and e.node.a[0].endswith(".Scenario")]
    if sc:
        match(arg(sc[-1].node, "power_plant_position"), "PowerPlantConfig.power_plant_position", "power_plant", "Scenario.power_plant_position", sc[-1].where())

    # ------------------------------------------------------------ light source
    q = "artist.scene.sun.Sun.from_hdf5"
    if q in repo.funcs:
        gs = analyse(repo, q)
        R.analysed(q)
        root = N("param", q, "config_file")
        ret = gs.ret()
        SunL = object.__new__(LoadGraph)
        SunL.repo, SunL.g, SunL.root = repo, gs, root

        def sunval(n):
            v = SunL.value(n)
            return None if v is None else (("lightsources", "*") + v[0], v[1], v[2])
        v = sunval(arg(ret, "number_of_rays"))
        match(v or arg(ret, "number_of_rays"), "LightSourceConfig.number_of_rays", "lightsources", "Sun.number_of_rays", f"{repo.funcs[q].file}:{repo.funcs[q].line}")
        dp = Writer.__new__(Writer)
        dp.repo, dp.cache, dp.ctor, dp.functions = repo, {}, {}, set()
        dp.leaf = lambda v, f: v
        dp.is_dict = lambda v: False
        d = dp.expand(arg(ret, "distribution_parameters"), repo.funcs[q], (), 0)
        ini = analyse(repo, "artist.scene.sun.Sun.__init__")
        used = {}
        for x in set().union(*[e.node.subs() for e in ini.events if e.node is not None]):
            if x.k == "sub" and x.a[1].k == "const" and isinstance(cval(x.a[1]), str):
                used[cval(x.a[1])] = x
        for key, leaf in (("distribution_type", "LightSourceConfig.distribution_type"), ("mean", "LightSourceConfig.mean"), ("covariance", "LightSourceConfig.covariance")):
            cname = {"distribution_type": "light_source_distribution_type", "mean": "light_source_mean", "covariance": "light_source_covariance"}[key]
            k = repo.const("artist.util.constants." + cname)[1] or key
            ok = (k,) in d
            val = d.get((k,), (None,))[0]
            v = sunval(val) if val is not None else None
            match(v or (val if val is not None else const(None)), leaf, "lightsources", f"Sun.distribution_parameters.{key}", f"{repo.funcs[q].file}:{repo.funcs[q].line}")
            if v:
                conds = d[(k,)][1]
                okc = all((lambda t: t is not None and ("lightsources", "*") + t[0] == v[0] and t[1] == p)(SunL.truth(c)) for c, p in conds)
                R.ob("S01.optional", f"Sun.distribution_parameters.{key}", okc, f"{repo.funcs[q].file}:{repo.funcs[q].line}", "taken from the file under a condition about something else")
        # the normal distribution is built from the named parameters
        mv = [e for e in ini.events if e.kind == "call" and callee_is(e.node, "MultivariateNormal")]
        if mv:
            n = mv[-1].node
            args = [v for p, v in n.a[1]]
            for a, key, what in zip(args, ("mean", "covariance"), ("loc", "covariance_matrix")):
                ks = {cval(x.a[1]) for x in a.subs() if x.k == "sub" and x.a[1].k == "const" and isinstance(cval(x.a[1]), str)}
                ks |= {cval(x.a[1][1][1]) for x in a.subs() if x.k == "op" and x.a[0] == "get" and len(x.a[1]) > 1 and x.a[1][1][1].k == "const"}
                cname = {"mean": "light_source_mean", "covariance": "light_source_covariance"}[key]
                R.ob("S01.value", f"Sun.distribution.{what}", ks == {repo.const("artist.util.constants." + cname)[1]}, mv[-1].where(), f"built from {sorted(ks)}")

    # ------------------------------------------------------------ facets
    fc = [e for e in g.events if e.kind == "call" and e.node.k == "rcall" and e.node.a[0].endswith(".FacetConfig")]
    for e in fc:
        pref = None
        for param, leaf in FACET.items():
            a = arg(e.node, param)
            vals = [a]
            b = peel(a)
            if b.k == "op" and b.a[0] == "tensor" and first_arg(b).k == "list":
                vals = list(first_arg(b).a)
            for i, x in enumerate(vals):
                v = L.value(x)
                pref = v[0][0] if v and pref is None else pref
                label = f"FacetConfig.{param} of {pref}" + (f"[{i}]" if len(vals) > 1 else "")
                v = match(v or x, leaf, pref or "?", label, e.where(), elem_idx=i if len(vals) > 1 else None)
                if v:
                    ok = bool(v[1]) and e.ctx is not None
                    R.ob("S01.aligned", label, ok, e.where(), "")
    R.ob("S01.value", "facets of prototype and heliostats", {L.value(arg(e.node, "canting"))[0][0] for e in fc if L.value(arg(e.node, "canting"))} == {"prototypes", "heliostats"},
         fc[0].where() if fc else "", "facets are not loaded for both prototype and individual heliostats")

    # ------------------------------------------------------------ groups
    apps = {}
    for e in g.events:
        if e.kind == "call" and e.node.k == "op" and e.node.a[0] == "append" and len(e.node.a[1]) == 2:
            t = e.node.a[1][0][1]
            if t.k == "sub" and t.a[1].k == "const" and isinstance(cval(t.a[1]), str):
                apps.setdefault(cval(t.a[1]), []).append((e, e.node.a[1][1][1]))
    ctor = [e for e in g.events if e.kind == "call" and e.node.k in ("xcall", "op", "rcall") and any(p == "initial_orientations" for p, _ in (e.node.a[1] if e.node.k != "xcall" else e.node.a[1]))]
    if not ctor:
        raise AnalysisError("anchor vanished: heliostat group construction in the loader")
    ce = ctor[-1]
    cargs = dict(ce.node.a[1])

    def appended(param):
        v = cargs.get(param)
        if v is None:
            return None
        v = peel(v)
        if v.k == "sub" and v.a[1].k == "const":
            xs = apps.get(cval(v.a[1]), [])
            if len(xs) == 1:
                return xs[0]
        return None

    def both(param, fn):
        """apply fn(value, prefix, label) to the individual and the prototype alternative of a per-heliostat value"""
        x = appended(param)
        if x is None:
            R.ob("S01.value", f"group.{param}", False, ce.where(), "the value passed to the heliostat group is not collected per heliostat under that name")
            return
        fn(x[1], x[0])

    x = appended("names")
    name_elem = x[1] if x else None
    R.ob("S01.value", "group.names", x is not None and name_elem.k == "elem" and (L.path(strip_keys(name_elem.a[0])) or ((),))[0] == ("heliostats",), ce.where(), "names are not the heliostats' keys")

    def is_own(path, elems):
        return path[:2] != ("heliostats", "*") or (elems and elems[0] is name_elem)

    def alternatives(v):
        """(prefix -> leaf values) over the presence-of-section structure"""
        out = {}
        for l in phi_leaves(v):
            for y in [l]:
                pv = None
                for z in sorted(y.subs(), key=lambda n: n._id):
                    p = L.path(z)
                    if p and p[0] and p[0][0] in ("prototypes", "heliostats") and len(p[0]) > 1:
                        pv = p[0][0]
                        break
                out.setdefault(pv, []).append(y)
        return out

    def single(param, leaf, prefixes):
        def fn(v, e):
            alts = {}
            for l in phi_leaves(v):
                x = L.value(l)
                if x is not None:
                    alts.setdefault(x[0][0], []).append(x)
                else:
                    R.ob("S01.value", f"group.{param}", False, e.where(), f"alternative {show(l)[:100]} is not read from the file")
            for p in prefixes:
                if p not in alts:
                    R.ob("S01.value", f"group.{param} from {p}", False, e.where(), "not loaded")
                for x in alts.get(p, []):
                    match(x, leaf, p, f"group.{param} from {p}", e.where())
                    R.ob("S01.aligned", f"group.{param} from {p}", is_own(x[0], x[1]), e.where(), "value of another heliostat")
        both(param, fn)

    single("positions", "HeliostatConfig.position", ["heliostats"])
    single("initial_orientations", "KinematicsConfig.initial_orientation", ["heliostats", "prototypes"])

    def optional_value(v, leaf, prefix, label, where, ei=None):
        """φ(present ? value : 0) or plain value; one path"""
        reads, ok0 = [], True
        for conds, l in leaves_where(v):
            x = L.value(l)
            if x is not None:
                reads.append((x, conds))
            elif num(peel_tensor(l)) != 0:
                ok0 = False
        if not reads:
            R.ob("S01.value", label, False, where, f"{show(v)[:100]} is not read from the file; expected {leaf}")
            return
        for x, conds in reads:
            m = match(x, leaf, prefix, label, where, ei)
            R.ob("S01.aligned", label, is_own(x[0], x[1]), where, "value of another heliostat")
            if m and conds:
                def about(c, p):
                    t = L.truth(c)
                    return t is not None and t == (x[0], p)
                R.ob("S01.optional", label, ok0 and all(about(c, p) for c, p in conds), where,
                     "the value is used under a condition other than its own presence, or the default is not 0")
        return reads

    def peel_tensor(l):
        l = peel(l)
        while l.k == "op" and l.a[0] in ("tensor", "float", "torch.tensor") and l.a[1]:
            l = peel(first_arg(l))
        return l

    def vector(param, slots_, cls):
        def fn(v, e):
            seen = set()
            for l in phi_leaves(v):
                cs, extra = cells(l)
                if not cs:
                    if l.k == "undef":
                        continue
                    R.ob("S01.value", f"group.{param}", False, e.where(), f"alternative {show(l)[:100]} is not filled from the file")
                    continue
                pre = next((x[0][0] for _, val in cs.values() for lf in phi_leaves(val) for x in [L.value(lf)] if x), "?")
                seen.add(pre)
                for i, name in enumerate(slots_):
                    label = f"group.{param}[{i}] from {pre}"
                    if i not in cs:
                        R.ob("S01.value", label, False, e.where(), f"slot of {name} is never loaded")
                    else:
                        optional_value(cs[i][1], f"{cls}.{name}", pre, label, e.where())
                R.ob("S01.value", f"group.{param} slots from {pre}", set(cs) <= set(range(len(slots_))) and not extra, e.where(), f"unexpected slots {sorted(set(cs) - set(range(len(slots_))))}")
            R.ob("S01.value", f"group.{param} alternatives", seen == {"heliostats", "prototypes"}, e.where(), f"loaded from {sorted(seen)} only")
        both(param, fn)

    vector("kinematics_translation_deviation_parameters", TRANS, "KinematicsDeviations")
    vector("kinematics_rotation_deviation_parameters", ROT, "KinematicsDeviations")

    def matrix(param, tables):
        def fn(v, e):
            seen = set()
            for l in phi_leaves(v):
                cs, extra = cells(l)
                if not cs:
                    continue
                pre = next((x[0][0] for _, val in cs.values() for lf in phi_leaves(val) for x in [L.value(lf)] if x), "?")
                kind = None
                if param.endswith("non_optimizable"):
                    t = cs.get(0)
                    kind = {repo.const("artist.util.constants.linear_actuator_int")[1]: "linear", repo.const("artist.util.constants.ideal_actuator_int")[1]: "ideal"}.get(num(peel_tensor(t[1])) if t else None)
                    if kind is None:
                        R.ob("S01.value", f"group.{param} actuator type code from {pre}", False, e.where(), "row 0 does not hold a known actuator type code")
                        continue
                    # the type code must belong to the branch taken for that type
                else:
                    kind = "linear"
                seen.add((kind, pre))
                tab = tables[kind]
                for i, (leaf, ei) in tab.items():
                    label = f"group.{param}[{i}] of {kind} actuators from {pre}"
                    if i not in cs:
                        R.ob("S01.value", label, False, e.where(), f"row of {leaf} is never loaded")
                        continue
                    val = cs[i][1]
                    if leaf.endswith("clockwise_axis_movement"):
                        lw = leaves_where(val)
                        ok = False
                        if len(lw) == 2:
                            rd = [(c[0], num(peel_tensor(x))) for c, x in lw]
                            x = L.value(rd[0][0][0])
                            if x is not None and written(x[0]) and written(x[0])[0] == leaf and x[0][0] == pre and is_own(x[0], x[1]):
                                ok = {p: n for (_, p), n in rd} == {True: 1, False: 0}
                        else:
                            x = L.value(val)
                            ok = x is not None and written(x[0]) and written(x[0])[0] == leaf and x[0][0] == pre
                        R.ob("S01.value", label, ok, e.where(), f"row is {show(val)[:100]}; expected 1 exactly for clockwise axis movement")
                    else:
                        optional_value(val, leaf, pre, label, e.where(), ei)
                    ri = cs[i][0]
                    x = [L.value(lf) for lf in phi_leaves(val)]
                    els = [y for z in x if z for y in z[1]] or [y for z in val.subs() if z.k == "elem" for y in [z]]
                    ok = ri is not None and any(strip_keys(y.a[0]) is strip_keys(ri.a[0]) for y in els if y.k == "elem")
                    R.ob("S01.aligned", label, ok, e.where(), "the column is not the actuator the value belongs to")
            want = {(k, p) for k in tables for p in ("heliostats", "prototypes")}
            R.ob("S01.value", f"group.{param} alternatives", seen == want, e.where(), f"loaded for {sorted(seen)} only")
        both(param, fn)

    matrix("actuator_parameters_non_optimizable", {"linear": LIN_N, "ideal": IDEAL_N})
    matrix("actuator_parameters_optimizable", {"linear": LIN_O})

    # canting / translations / control points / surface
    for param, attr in (("canting", "canting"), ("facet_translations", "translation_vector"), ("nurbs_control_points", "control_points")):
        def fn(v, e, attr=attr, param=param):
            got = False
            for l in phi_leaves(v):
                if l.k == "rcall":
                    continue
                rs = rows(l) or [(None, None, u) for u in []]
                if not rs and v.k == "loopout":
                    rs = rows(v)
                for ri, col, val in rs:
                    ok = val.k == "attr" and val.a[1] == attr and val.a[0].k == "elem"
                    if ok and ri is not None:
                        ok = ri.k == "idx" and ri.a[0] is val.a[0].a[0]
                    got = got or ok
                    R.ob("S01.value", f"group.{param}", ok, e.where(), f"facet row is {show(val)[:100]}, expected the facet's {attr}")
            # value may be an (unpeeled) loop result
            if not got:
                rs = rows(v)
                for ri, col, val in rs:
                    ok = val.k == "attr" and val.a[1] == attr
                    R.ob("S01.value", f"group.{param}", ok, e.where(), f"facet row is {show(val)[:100]}, expected the facet's {attr}")
        both(param, fn)
    def surf(i):
        def fn(v, e):
            v2 = peel(v)
            ok = v2.k == "sub" and num(v2.a[1]) == i and v2.a[0].k == "rcall" and v2.a[0].a[0].endswith(".get_surface_points_and_normals")
            if ok:
                c = v2.a[0]
                sv = arg(c, "self")
                ok = sv.k == "rcall" and sv.a[0].endswith(".Surface")
                for p in ("canting", "facet_translations"):
                    other = appended(p)
                    ok = ok and other is not None and arg(c, p) is other[1]
            R.ob("S01.value", f"group.surface_{'points' if i == 0 else 'normals'}", ok, e.where(), f"not the {'points' if i == 0 else 'normals'} of the heliostat's own surface with its own canting and facet translations: {show(v)[:140]}")
        return fn
    both("surface_points", surf(0))
    both("surface_normals", surf(1))

    # ------------------------------------------------------------ every read path exists
    seen = {}
    allp = set(W.schema)
    prefixes = {p[:i] for p in allp for i in range(1, len(p) + 1)}
    for e in g.events:
        for n in ([e.node] if e.node is not None else []):
            for z in n.subs():
                if z.k == "sub" and z.a[1].k == "tuple" and not z.a[1].a or z.k == "op" and z.a[0] == "get":
                    p = L.path(z)
                    if p and p[0]:
                        seen.setdefault(p[0], (e, z.k == "op"))
                elif z.k == "cmp" and z.a[0] == "in":
                    t = L.truth(z)
                    if t and t[0] and not any(x.k == "param" and x.a[0] != LOAD for x in z.subs()):
                        R_path = t[0]
                        seen.setdefault(("?",) + R_path, (e, False))
    for p, (e, opt) in sorted(seen.items()):
        if p[0] == "?":
            R.ob("S01.path", "presence of " + "/".join(p[1:]), p[1:] in prefixes, e.where(), "a section is tested for that the generator never writes")
            continue
        R.ob("S01.path", "/".join(p), p in allp, e.where(), "this path is read but never written by the generator")
        if p in allp and not opt:
            leaf, conds, w = W.schema[p]
            bad = [c for c, pol in conds if not any(x.k == "attr" and x.a[1] in ("surface", "kinematics", "actuators") for x in c.subs())]
            R.ob("S01.required", "/".join(p), not bad, w, f"read unconditionally at {e.where()} but written only if {'; '.join(show(c)[:60] for c in bad)}")

    # ------------------------------------------------------------ None defaults
    import ast
    for leaf, paths in sorted(by_leaf.items()):
        cls, _, param = leaf.partition(".")
        q = "artist.util.config." + cls
        f = repo.find_method(q, "__init__") if q in repo.classes else None
        if f is None:
            continue
        a = f.node.args
        names = [x.arg for x in a.args]
        dflt = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        dflt.update({k.arg: d for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        if param in dflt and isinstance(dflt[param], ast.Constant) and dflt[param].value is None:
            for p in paths:
                conds = W.schema[p][1]
                ok = any(c.k == "cmp" and is_const(c.a[2], None) and (c.a[0] in ("is", "==")) != pol for c, pol in conds if any(x.k == "attr" for x in c.subs()))
                ok = ok and any(any(W_attr(W, repo, q, x) == param for x in c.subs() if x.k == "attr") for c, pol in conds)
                R.ob("S01.none", "/".join(p), ok, W.schema[p][2], f"{leaf} may be None but is written unconditionally; an HDF5 file cannot hold None")
    R.floor("S01.value", 80)
    R.floor("S01.path", 60)


def W_attr(W, repo, cls, x):
    return W.ctor_map(cls).get(x.a[1])

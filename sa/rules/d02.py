"""Assignment of heliostat groups to processes.  The distribution of groups is abstracted to 'item j goes to rank r(j)' and compared with round
robin over all ranks (repeating the groups when there are more ranks); sub-groups, their rank and size, the inverse mapping, the published
set-up and the process-group initialisation are compared with reference bodies, value by value and case by case."""
from __future__ import annotations

import ast

from ..loops import AlgL, Canon, spec_compare
from ..q import *
from ..repo import AnalysisError
from ..spec import boolred, equiv, explain, spec_graph
from ..vf import N, analyse, arg, const, first_arg, num, show

E = "artist.util.env."
SUB = """
    inverse = defaultdict(list)
    for r, groups in groups_to_ranks_mapping.items():
        for group in groups:
            inverse[group].append(r)
    own_rank, own_size, own_group = 0, 1, None
    for members in inverse.values():
        pg = torch.distributed.new_group(ranks=members)
        if rank in members:
            own_rank = members.index(rank)
            own_size = len(members)
            own_group = pg
    return own_rank, own_size, own_group, inverse
"""
SUB2 = SUB.replace("for members in inverse.values():", "for k, members in inverse.items():")
SETUP = """
    device, is_distributed, rank, world_size = initialize_ddp_environment(device=device)
    mapping, nested = distribute_groups_among_ranks(world_size=world_size, number_of_heliostat_groups=number_of_heliostat_groups)
    if nested:
        own_rank, own_size, own_group, inverse = create_subgroups_for_nested_ddp(rank=rank, groups_to_ranks_mapping=mapping)
    else:
        own_rank, own_size, own_group = 0, 1, None
        inverse = defaultdict(list)
        for r, groups in mapping.items():
            for group in groups:
                inverse[group].append(r)
    yield DdpSetup(device=device, is_distributed=is_distributed, is_nested=nested, rank=rank, world_size=world_size, process_subgroup=own_group,
                   groups_to_ranks_mapping=mapping, heliostat_group_rank=own_rank, heliostat_group_world_size=own_size, ranks_to_groups_mapping=inverse)
"""
INIT = """
    device = get_device(device=device)
    backend = "nccl" if device.type == "cuda" else "gloo"
    distributed, rank, size = False, 0, 1
    try:
        torch.distributed.init_process_group(backend=backend, init_method="env://")
        distributed = True
        size = torch.distributed.get_world_size()
        rank = torch.distributed.get_rank()
    except Exception:
        pass
    if device.type == "cuda" and distributed:
        device = torch.device(f"cuda:{rank % torch.cuda.device_count()}")
    return device, distributed, rank, size
"""
DEVICE = """
    if device is None:
        if platform.system() == "Linux" or platform.system() == "Windows":
            device = torch.device("cuda" if torch.cuda.is_available() else "cpu")
        else:
            device = torch.device("cpu")
    return device
"""


class AlgE(AlgL):
    """One try block: its failure is one condition."""

    def cond(self, n):
        if n.k == "exc":
            return Poly.atom(N("boolatom", N("global", "#failed")))
        return super().cond(n)


class Seq:
    """A finite sequence whose j-th item is j modulo a number; `length` is a polynomial."""

    def __init__(self, length, mod):
        self.length, self.mod = length, mod


def strip(n):
    while n.k == "op" and n.a[0] in ("list", "tuple", "builtins.list") or (n.k == "op" and n.a[0] == "iter"):
        n = first_arg(n)
    return n


def name(n):
    return n.a[0].rsplit(".", 1)[-1] if n.k == "op" else ""


def seq(A, n):
    """[(condition polynomial, Seq)] for a sequence expression, or None."""
    n = strip(n)
    one = Poly.c(1)
    if n.k == "phi":
        a, b = seq(A, n.a[1]), seq(A, n.a[2])
        c = A.cond(n.a[0])
        if a is None or b is None:
            return None
        return [(c * p, s) for p, s in a] + [((one - c) * p, s) for p, s in b]
    if name(n) == "range" and len(n.a[1]) == 1:
        m = A.p(first_arg(n))
        return [(one, Seq(m, m))]
    if name(n) == "islice":
        xs = [v for _, v in n.a[1]]
        if len(xs) == 2 and name(strip(xs[0])) == "cycle":
            s = seq(A, first_arg(strip(xs[0])))
            if s is not None and len(s) == 1 and s[0][1].length == s[0][1].mod:
                return [(one, Seq(A.p(xs[1]), s[0][1].mod))]
    return None


def check(repo, R):
    R.rule("D02.round_robin", "item j of the groups (repeated up to the number of ranks when there are more ranks) is appended to the list of rank j modulo the number of ranks, every rank has a list")
    R.rule("D02.nested", "nesting is reported exactly when there are more ranks than groups")
    R.rule("D02.subgroups", "one process group per heliostat group in mapping order on every rank; own rank, own size and process group all belong to the same heliostat group; inverse mapping lists all ranks of each group")
    R.rule("D02.setup", "the published set-up holds these values, with single-process defaults when not nested")
    R.rule("D02.init", "rank and size are those of the initialised process group, or 0 and 1 without one; the device is the requested one or chosen from availability")
    q = E + "distribute_groups_among_ranks"
    f = repo.func(q)
    where = f"{f.file}:{f.line}"
    g = analyse(repo, q)
    R.analysed(q)
    A = AlgE()
    W, G = A.p(N("param", q, "world_size")), A.p(N("param", q, "number_of_heliostat_groups"))
    nested = A.cmpz(G - W)
    r = g.ret()
    ok = r.k == "tuple" and len(r.a) == 2 and A.cond(r.a[1]) == nested
    R.ob("D02.nested", "distribute_groups_among_ranks", ok, where, "" if ok else "the second result is not 'more ranks than groups'")
    R.ob("D02.round_robin", "distribute_groups_among_ranks", *round_robin(A, g, r, W, G, nested, where))
    # other functions
    fs = repo.func(E + "create_subgroups_for_nested_ddp")
    for nm, i in (("heliostat group rank", 0), ("heliostat group world size", 1), ("process subgroup", 2), ("ranks of each group", 3)):
        x = None
        for text in (SUB, SUB2):
            x = one(repo, fs.qual, text, i)
            if x is None:
                break
        R.ob("D02.subgroups", f"{fs.name}.{nm}", x is None, f"{fs.file}:{fs.line}", "" if x is None else x)
    R.analysed(fs.qual)
    # creating a process group is a collective call: no rank may leave one out
    g = analyse(repo, fs.qual)
    own = N("param", fs.qual, "rank")
    made = [e for e in g.events if e.kind == "call" and name(e.node) == "new_group"]
    ok = bool(made) and not any(own in c.subs() for e in made for c, *_ in e.pc) and not any(own in v.subs() for e in made for _, v in e.node.a[1])
    R.ob("D02.subgroups", f"{fs.name}.creation", ok, made[0].where() if made else f"{fs.file}:{fs.line}",
         "" if ok else "whether (or which) process groups are created depends on the rank, but creating a group needs every rank")
    # set-up
    q = E + "setup_distributed_environment"
    f = repo.func(q)
    R.analysed(q)
    g, s = analyse(repo, q), spec_graph(repo, q, SETUP)
    yg, ys = [e.node for e in g.events if e.kind == "yield"], [e.node for e in s.events if e.kind == "yield"]
    if len(yg) != 1:
        R.ob("D02.setup", f.name, False, f"{f.file}:{f.line}", f"{len(yg)} values are yielded")
    else:
        hg, hs = kwargs(yg[0]), kwargs(ys[0])
        cg, cs = Canon(g.interp, A), Canon(s.interp, A)
        for k in hs:
            x = (None, None, None) if k not in hg else equiv(A, cg.rw(hg[k]), cs.rw(hs[k]))
            R.ob("D02.setup", f"{f.name}.{k}", x is None, f"{f.file}:{f.line}", "" if x is None else "not set" if k not in hg else explain(x)[:300])
    spec_compare(repo, R, "D02.init", E + "initialize_ddp_environment", INIT, names=("device", "is distributed", "rank", "world size"), A=A)
    kills = [e for e in g.events if e.kind == "call" and name(e.node) == "destroy_process_group"]
    ok = any(all(pol for _, pol, _ in e.pc) and len(e.pc) <= 2 for e in kills)
    tries = [t for t in ast.walk(f.node) if isinstance(t, ast.Try) and t.finalbody and any(isinstance(x, ast.Yield) for b in t.body for x in ast.walk(b))]
    R.ob("D02.setup", f"{f.name}.cleanup", bool(ok and tries), f"{f.file}:{f.line}", "" if ok and tries else "the process group is not destroyed on every way out of the context")
    fi = repo.func(E + "initialize_ddp_environment")
    gi, si = analyse(repo, fi.qual), spec_graph(repo, fi.qual, INIT)
    a, b = ([e.node for e in x.events if e.kind == "call" and name(e.node) == "init_process_group"] for x in (gi, si))
    x = ("", "", "") if len(a) != 1 else equiv(A, kwargs(a[0]).get("backend", const("?")), kwargs(b[0])["backend"])
    R.ob("D02.init", "initialize_ddp_environment.backend", x is None, f"{fi.file}:{fi.line}", "" if x is None else "the process group is not initialised with nccl on CUDA and gloo otherwise")
    spec_compare(repo, R, "D02.init", E + "get_device", DEVICE, A=A)


def kwargs(n):
    return dict(n.a[1]) if n.k in ("rcall", "op") else {}


def one(repo, q, text, i):
    from ..spec import item
    A = AlgL()
    g, s = analyse(repo, q), spec_graph(repo, q, text)
    cg, cs = Canon(g.interp, A), Canon(s.interp, A)
    try:
        x = equiv(A, cg.rw(item(g.ret(), i)), cs.rw(item(s.ret(), i)))
    except (IndexError, TypeError) as e:
        return f"result has another structure ({e})"
    return None if x is None else explain(x)[:300]


def round_robin(A, g, r, W, G, nested, where):
    if r.k != "tuple":
        return False, where, "result is not a pair"
    apps = [e for e in g.events if e.kind == "call" and name(e.node) == "append"]
    if len(apps) == 2 and all(len(e.pc) == 1 for e in apps):
        cases = [boolred(A.cond(e.pc[0][0]) if e.pc[0][1] else Poly.c(1) - A.cond(e.pc[0][0])) for e in apps]
        if sorted(map(str, cases)) == sorted(map(str, (boolred(nested), boolred(Poly.c(1) - nested)))):
            for e, c in zip(apps, cases):
                x = handed(A, g, r, e, W, G, nested, where, c)
                if not x[0]:
                    return x
            return True, where, ""
    if len(apps) != 1 or apps[0].pc:
        return False, where, f"{len(apps)} places append a group to a rank, or under a condition"
    return handed(A, g, r, apps[0], W, G, nested, where, Poly.c(1))


def handed(A, g, r, app, W, G, nested, where, when):
    xs = [v for _, v in app.node.a[1]]
    recv, val = xs[0], strip(xs[1])
    while recv.k == "loopvar":
        recv = recv.a[2]
    mapping = r.a[0]
    leaves = lambda m: leaves(m.a[2]) if m.k == "loopout" else leaves(m.a[1]) + leaves(m.a[2]) if m.k == "phi" else [m]
    empty = spec_graph(g.interp.repo, E + "distribute_groups_among_ranks", "return {i: [] for i in range(world_size)}").ret()
    fresh = lambda m: A.argn(m) is A.argn(empty)
    base = lambda m: base(m.a[2]) if m.k in ("loopvar", "loopout") else m
    if not all(fresh(m) for m in leaves(mapping)):
        return False, where, f"the mapping does not start with one empty list per rank: {show(mapping)[:120]}"
    # the items and their position
    pos = None
    if val.k == "elem":
        src = val.a[0]
        items = seq(A, src)
    elif val.k == "idx":
        src = val.a[0]
        items = seq(A, src)
        pos = A.p(val)
    elif val.k == "bin" and val.a[0] == "%" and val.a[1].k in ("idx", "elem"):
        src = val.a[1].a[0]
        items = seq(A, src)
        m = A.p(val.a[2])
        items = None if items is None else [(c, Seq(x.length, m)) for c, x in items if x.length == x.mod]
    else:
        return False, where, f"what is appended is not recognised as a group: {show(val)[:120]}"
    if items is None:
        return False, where, f"the groups are not taken in order (and repeated from the first): {show(src)[:160]}"
    big = A.p(N("op", "max", (("input", N("param", E + "distribute_groups_among_ranks", "world_size")), ("dim", N("param", E + "distribute_groups_among_ranks", "number_of_heliostat_groups")))))
    big2 = A.p(N("op", "max", (("input", N("param", E + "distribute_groups_among_ranks", "number_of_heliostat_groups")), ("dim", N("param", E + "distribute_groups_among_ranks", "world_size")))))
    for c, x in items:
        for case, want in ((nested, W), (Poly.c(1) - nested, G)):
            case = boolred(case * when)
            if boolred(c * case) == Poly.c(0):
                continue
            same = boolred(c * case * x.length) == boolred(c * case * want)
            if x.mod != G or (not same and x.length not in (big, big2)):
                return False, where, "not every group is given to a rank" if want is G else "with more ranks than groups, some ranks do not get a group"
    # the receiving rank
    if name(recv) == "next":
        cyc = strip(first_arg(recv))
        if name(cyc) != "cycle" or name(strip(first_arg(cyc))) not in ("values",) or not fresh(base(first_arg(strip(first_arg(cyc))))):
            return False, where, f"groups are not handed to the ranks in turn: {show(recv)[:160]}"
        return True, where, ""
    if recv.k == "elem" and name(strip(recv.a[0])) == "cycle":
        z = strip(first_arg(strip(recv.a[0])))
        if name(z) == "values" and fresh(base(first_arg(z))):
            return True, where, ""
    if recv.k == "sub" and fresh(base(recv.a[0])):
        i = recv.a[1]
        if i.k == "elem" and name(strip(i.a[0])) == "cycle":
            z = seq(A, first_arg(strip(i.a[0])))
            if z is not None and len(z) == 1 and z[0][1].length == W == z[0][1].mod:
                return True, where, ""
        if i.k in ("idx", "elem") and i.a[0] is src and all(x.length == W or boolred(c * when) == Poly.c(0) for c, x in items):
            return True, where, ""
        if i.k == "bin" and i.a[0] == "%" and A.p(i.a[2]) == W and i.a[1].k in ("idx", "elem") and i.a[1].a[0] is src:
            return True, where, ""
    return False, where, f"groups are not handed to the ranks in turn: {show(recv)[:160]}"

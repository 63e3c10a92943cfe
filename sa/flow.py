"""Comparison of the calls and stores on the paths of one function (helpers inlined) with those of a reference body.

Every selected construct of the code must correspond to one of the reference: same argument values, same condition, same relative order.  Values are
compared modulo loops and normal form; conditions on the distributed set-up are taken as false (one rank; the distributed part is checked in D01)."""
from __future__ import annotations

from .alg import pkey
from .loops import AlgL, Canon
from .q import Poly, idx_parts, newaxis_only
from .spec import boolred, equiv, explain, item, spec_graph
from .repo import AnalysisError
from .vf import N, analyse, const, show

STRIP = {"detach", "item", "cpu", "float", "clone", "tolist"}


class Serial:
    """Values on one rank: conditions on the distributed set-up are false, detaching is the identity."""

    def __init__(self, drop=("detach",), kw=("device", "requires_grad", "dtype")):
        self.memo, self.drop, self.kw = {}, set(drop), set(kw)

    def cond(self, c):
        if c.k == "sub":
            s = show(c)
            if s.endswith(("['is_nested']", "['is_distributed']")):
                return False
        return None

    def __call__(self, n):
        if isinstance(n, tuple):
            return tuple(self(x) for x in n)
        if not isinstance(n, N):
            return n
        r = self.memo.get(n)
        if r is None:
            if n.k == "phi" and self.cond(n.a[0]) is not None:
                r = self(n.a[2])
            elif n.k == "op" and n.a[0] in self.drop and n.a[1]:
                r = self(n.a[1][0][1])
            elif n.k in ("const", "param", "global", "undef"):
                r = n
            else:
                a = n.a
                if n.k in ("op", "rcall", "xcall") and len(a) > 1 and isinstance(a[-1], tuple):
                    a = a[:-1] + (tuple(x for x in sorted(a[-1], key=lambda t: str(t[0]) if n.k != "op" and isinstance(t, tuple) and len(t) == 2 else "") if not (isinstance(x, tuple) and len(x) == 2 and x[0] in self.kw)),)
                a = tuple(self(x) for x in a)
                r = n if a == n.a else N(n.k, *a)
            self.memo[n] = r
        return r


class Single(Serial):
    """Values in a group of one process: conditions on the distributed set-up are true, collectives are the identity."""

    def cond(self, c):
        if c.k == "sub" and show(c).endswith("['is_distributed']"):
            return True
        return super().cond(c)

    def __call__(self, n):
        if isinstance(n, N):
            if n.k == "phi" and self.cond(n.a[0]) is True:
                return self(n.a[1])
            if n.k == "op" and n.a[0].startswith("torch.distributed.") and n.a[1] and n.a[0].rpartition(".")[2] in ("all_reduce", "broadcast"):
                return self(n.a[1][0][1])
            if n.k == "bin" and n.a[0] == "/" and show(n.a[2]).endswith("['world_size']"):
                return self(n.a[1])
        return super().__call__(n)


def callee(n):
    return n.a[0].rsplit(".", 1)[-1] if n.k in ("op", "rcall") else None


def strip(n):
    while n.k == "op" and n.a[0] in STRIP and n.a[1]:
        n = n.a[1][0][1]
    return n


class Side:
    def __init__(self, repo, g, A, rounds, layout=False, view=Serial):
        self.repo, self.g, self.A = repo, g, A
        self.ser = view()
        # loop bodies on one rank
        it = g.interp
        class I:
            pass
        i = I()
        i.loopinfo = {k: {**v, "src": self.ser(v["src"]), "test": self.ser(v["test"]) if v["test"] is not None else None,
                          "breaks": [(self.ser(c) if c is not None else None, s) for c, s in v["breaks"]]} for k, v in it.loopinfo.items()}
        i.loopbody = {self.ser(lv): (self.ser(fv), i.loopinfo[info["lid"]], [self.ser(x) for x in at]) for lv, (fv, info, at) in it.loopbody.items()}
        self.canon = Canon(i, A, rounds, layout)
        self.events = [e for e in g.events if not any(self.ser.cond(c) is False and p for c, p, _ in e.pc)]

    def rw(self, n):
        return self.canon.rw(self.ser(n))

    def pc(self, e):
        p = Poly.c(1)
        for c, pol, t in e.pc:
            if self.ser.cond(c) is not None or t == "raise":
                continue
            x = self.A.cond(self.rw(c))
            p = boolred(p * (x if pol else Poly.c(1) - x))
        return p

    def args(self, e):
        """Name -> value of a call event (receiver is 'self'); of a store: target and value."""
        n = e.node
        if e.kind == "store_attr":
            return {"value": n, "object": e.x[2]}
        if e.kind == "store_sub":
            return {"value": n, "object": e.x[0], "key": e.x[1]}
        if e.kind in ("yield", "yieldfrom"):
            return {"value": n}
        if n.k in ("op", "rcall", "xcall"):
            t = n.a[-1] if isinstance(n.a[-1], tuple) else ()
            return dict(t)
        return {}

    def defaults(self, e):
        n = e.node
        if n.k != "rcall":
            return {}
        f = self.repo.funcs.get(n.a[0])
        if f is None:
            c = self.repo.classes.get(n.a[0])
            f = self.repo.funcs.get(n.a[0] + ".__init__") if c is not None else None
        if f is None:
            return {}
        a = f.node.args
        out = {}
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            out[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[p.arg] = d
        import ast
        return {k: const(ast.literal_eval(d)) for k, d in out.items() if isinstance(d, (ast.Constant, ast.UnaryOp, ast.Tuple)) and not
                any(isinstance(x, ast.Name) for x in ast.walk(d))}


def flow_compare(repo, R, rule, name, qual, text, patterns, results=(), A=None, rounds=6, inline=(), opaque=(), skip=("device",), exact=True):
    """patterns: list of (label, predicate on events[, argument names or None for all])."""
    f = repo.func(qual)
    A = A or AlgL()
    where = f"{f.file}:{f.line}"
    R.analysed(qual)
    G = Side(repo, analyse(repo, qual, inline=inline, opaque=opaque), A, rounds, exact)
    S = Side(repo, spec_graph(repo, qual, text, inline=inline, opaque=opaque), A, rounds, exact)
    seq, todo = [], []
    for pat in patterns:
        label, pred, names = (pat + (None,))[:3]
        eg, es = [e for e in G.events if pred(e)], [e for e in S.events if pred(e)]
        if not es:
            raise AnalysisError(f"reference of {name} has no {label}")
        R.ob(rule, f"{name}.{label}", len(eg) == len(es), eg[0].where() if eg else where,
             "" if len(eg) == len(es) else f"{len(eg)} of {len(es)} expected {label} calls")
        if len(eg) != len(es):
            continue
        left = list(es)
        for e in eg:
            best = min(left, key=lambda s: (quick(G, S, e, s, names, skip), s.i))
            left.remove(best)
            seq.append((e, best))
            tag = f"{name}.{label}" + (f".{es.index(best) + 1}" if len(es) > 1 else "")
            if e.node.k == "rcall" and best.node.k == "rcall" and e.node.a[0] != best.node.a[0]:
                R.ob(rule, tag + ".callee", False, e.where(), f"calls {e.node.a[0]} instead of {best.node.a[0]}")
                continue
            ag, sg = G.args(e), S.args(best)
            dg, ds = G.defaults(e), S.defaults(best)
            for k in sorted(set(ag) | set(sg)):
                if k in skip or (names is not None and k not in names):
                    continue
                x, y = ag.get(k, dg.get(k)), sg.get(k, ds.get(k))
                if x is None or y is None:
                    R.ob(rule, f"{tag}.{k}", False, e.where(), f"{k} is {'not ' if x is None else ''}given")
                    continue
                lx, ly = layout(x), layout(y)
                if lx is not None and ly is not None and lx != ly:
                    R.ob(rule, f"{tag}.{k}", False, e.where(), f"{k}: batch axes are added at {lx} instead of {ly}")
                    continue
                todo.append((f"{tag}.{k}", k + ": ", e.where(), A.p(G.rw(x)), A.p(S.rw(y))))
            todo.append((f"{tag}.when", "done under another condition: ", e.where(), G.pc(e), S.pc(best)))
    # a function of its arguments may be called at any time
    seq = sorted((t for t in seq if not (t[0].node is not None and t[0].node.k == "rcall" and t[0].node.a[0] in pure(repo))), key=lambda t: t[0].i)
    idx = [t[1].i for t in seq]
    bad = next(((j, k) for k in range(1, len(idx)) for j in range(k) if idx[k] < idx[j] and not exclusive(seq[j][0], seq[k][0])), None)
    R.ob(rule, f"{name}.order", bad is None, seq[bad[1]][0].where() if bad else where,
         "" if bad is None else f"{callee(seq[bad[1]][0].node) or 'store'} happens after {callee(seq[bad[0]][0].node) or 'store'}")
    rg, rs = G.g.ret(), S.g.ret()
    for i, nm in enumerate(results):
        try:
            x, y = (A.p(G.rw(item(rg, i))), A.p(S.rw(item(rs, i)))) if len(results) > 1 else (A.p(G.rw(rg)), A.p(S.rw(rs)))
        except (IndexError, TypeError) as err:
            R.ob(rule, f"{name}.{nm}", False, where, f"result has another structure ({err})")
            continue
        todo.append((f"{name}.{nm}", "", where, x, y))
    settle(R, rule, A, todo)
    return G, S


def pure(repo):
    """Functions whose value depends on their arguments only: the losses and the reductions and crops of tensors."""
    r = getattr(repo, "_pure", None)
    if r is None:
        loss = "artist.optim.loss.Loss"
        cs = [loss] + list(repo.all_subclasses(loss)) if loss in repo.classes else []
        r = repo._pure = {c + ".__call__" for c in cs} | {q for q in repo.funcs if q.rpartition(".")[2] in ("reduce_loss_per_sample", "get_center_of_mass")}
    return r


def exclusive(a, b):
    """The two events lie on different sides of one branch."""
    pb = {(n, pol) for n, pol, _ in b.pc}
    return any((n, not pol) in pb for n, pol, _ in a.pc)


def settle(R, rule, A, todo):
    """Obligations (construct, prefix, where, code value, reference value): equal normal forms first; of the others the smallest are decided by cases
    until one differs (values built from it differ as well and are not listed again)."""
    open_ = []
    for t in todo:
        if t[3] == t[4]:
            R.ob(rule, t[0], True, t[2], "")
        else:
            open_.append(t)
    open_.sort(key=lambda t: size(t[3]) + size(t[4]))
    for t in open_:
        d = equiv(A, t[3], t[4])
        R.ob(rule, t[0], d is None, t[2], "" if d is None else t[1] + explain(d)[:400])
        if d is not None:
            break


def size(p):
    seen, n = set(), len(p.t)
    for a in p.atoms():
        if isinstance(a, N):
            seen |= set(a.subs())
    for a in [x for x in seen if x.k in ("lv", "mu", "exit")]:
        n += 200
    return n + len(seen)


def quick(G, S, e, s, names, skip):
    """Number of arguments without equal normal form."""
    if e.node.k == "rcall" and s.node.k == "rcall" and e.node.a[0] != s.node.a[0]:
        return 1000
    a, b = G.args(e), S.args(s)
    da, db = G.defaults(e), S.defaults(s)
    n = 0
    for k in set(a) | set(b):
        if k in skip or (names is not None and k not in names):
            continue
        x, y = a.get(k, da.get(k)), b.get(k, db.get(k))
        n += x is None or y is None or G.A.p(G.rw(x)) != G.A.p(S.rw(y))
    return 2 * n + (G.pc(e) != S.pc(s))


def layout(n):
    """Positions of the axes of size one added by the outermost wrappers, None if unknown."""
    out = []
    while True:
        if n.k == "op" and n.a[0] == "unsqueeze":
            d = [v for k, v in n.a[1][1:]]
            if len(d) != 1 or d[0].k != "const":
                return None
            out.append(d[0].a[0].v)
            n = n.a[1][0][1]
        elif n.k == "op" and n.a[0] in STRIP and n.a[1]:
            n = n.a[1][0][1]
        elif n.k == "sub" and newaxis_only(n.a[1]):
            parts = idx_parts(n.a[1])
            if any(x.k == "const" and x.a[0].v is Ellipsis for x in parts):
                out.append(-1)
            else:
                out += [i for i, x in enumerate(parts) if x.k == "const" and x.a[0].v is None]
            n = n.a[0]
        elif n.k == "op" and n.a[0] in ("view", "reshape", "expand", "flatten", "squeeze"):
            return None
        else:
            return tuple(out)


def rc(suffix):
    return lambda e: e.kind == "call" and e.node is not None and e.node.k == "rcall" and (e.node.a[0] == suffix or e.node.a[0].endswith("." + suffix))


def op(name):
    return lambda e: e.kind == "call" and e.node is not None and e.node.k == "op" and callee(e.node) == name


def store(attr):
    return lambda e: e.kind == "store_attr" and e.x[1] == attr


def kind(k):
    return lambda e: e.kind == k


def optimizer_step(e):
    return op("step")(e) and e.node.a[1][0][1].k == "op" and e.node.a[1][0][1].a[0].startswith("torch.optim.")

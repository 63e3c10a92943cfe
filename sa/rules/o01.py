"""Schedulers, early stopping and the optimisation loops.  Scheduler factories and the early-stopping state machine are compared with reference
bodies.  For each optimisation loop the order of gradient reset, loss, backward pass, step and stopping decision is checked on every path of one
iteration by an abstract interpretation of the loop body (typestate), and the arguments of scheduler, early stopping and optimiser are traced to
their configuration keys."""
from __future__ import annotations

from ..loops import AlgL, Canon, attrs_compare, final_attrs, spec_compare
from ..q import *
from ..repo import AnalysisError
from ..spec import equiv, explain, spec_graph
from ..vf import N, analyse, arg, const, first_arg, num, show

T = "artist.optim.training."
POS = {"ExponentialLR": ("optimizer", "gamma", "last_epoch"), "CyclicLR": ("optimizer", "base_lr", "max_lr", "step_size_up", "step_size_down"),
       "ReduceLROnPlateau": ("optimizer", "mode", "factor", "patience", "threshold", "threshold_mode", "cooldown", "min_lr", "eps")}
SCHED = {"exponential": ("ExponentialLR", {"optimizer": "optimizer", "gamma": "float(parameters['gamma'])"}),
         "cyclic": ("CyclicLR", {"optimizer": "optimizer", "base_lr": "float(parameters['lr_min'])", "max_lr": "float(parameters['lr_max'])",
                                 "step_size_up": "int(parameters['step_size_up'])"}),
         "reduce_on_plateau": ("ReduceLROnPlateau", {"optimizer": "optimizer", "factor": "float(parameters['reduce_factor'])", "patience": "int(parameters['patience'])",
                                                     "threshold": "float(parameters['threshold'])", "cooldown": "int(parameters['cooldown'])",
                                                     "min_lr": "float(parameters['lr_min'])"})}
STEP = """
    self.loss_history.append(loss)
    if len(self.loss_history) < self.window_size:
        return False
    gain = self.loss_history[0] - self.loss_history[-1]
    if self.relative:
        gain = gain / max(abs(self.loss_history[0]), self.eps)
    if gain > self.min_improvement:
        self.counter = 0
    else:
        self.counter = self.counter + 1
    return self.counter >= self.patience
"""

INIT = """
    self.loss_history = deque(maxlen=window_size)
    self.window_size = window_size
    self.patience = patience
    self.min_improvement = min_improvement
    self.relative = relative
    self.eps = eps
    self.counter = 0
"""
O = "artist.optim."
K, S, AP = O + "kinematics_reconstructor.KinematicsReconstructor.", O + "surface_reconstructor.SurfaceReconstructor.", O + "aim_point_optimizer.AimPointOptimizer."
ENTRIES = [("kinematics", K + "reconstruct_kinematics", 2, "rotation_deviation_parameters", "initial_learning_rate_rotation_deviation"),
           ("surface", S + "reconstruct_surfaces", 1, "nurbs_control_points", "initial_learning_rate"),
           ("aim points", AP + "optimize", 1, None, "initial_learning_rate")]
STRIP = {"detach", "item", "cpu", "float", "clone", "tolist"}
CFG = "self.optimizer_dict['%s']"


class Serial:
    """Values with one rank: conditions on the distributed set-up are false."""

    def __init__(self):
        self.memo = {}

    def cond(self, c):
        s = show(c)
        return False if s.endswith(("['is_nested']", "['is_distributed']")) and c.k == "sub" else None

    def __call__(self, n):
        if isinstance(n, tuple):
            return tuple(self(x) for x in n)
        if not isinstance(n, N):
            return n
        r = self.memo.get(n)
        if r is None:
            if n.k == "phi" and self.cond(n.a[0]) is not None:
                r = self(n.a[2])
            elif n.k == "op" and n.a[0] == "detach" and n.a[1]:
                r = self(n.a[1][0][1])
            elif n.k in ("const", "param", "global", "undef"):
                r = n
            else:
                a = tuple(self(x) for x in n.a)
                r = n if a == n.a else N(n.k, *a)
            self.memo[n] = r
        return r


def callee(n):
    return n.a[0].rsplit(".", 1)[-1] if n.k in ("op", "rcall") else None


def strip(n):
    while n.k == "op" and n.a[0] in STRIP and n.a[1]:
        n = n.a[1][0][1]
    return n


def pos(n, i, *names):
    for k, v in n.a[1]:
        if k == str(i) or k in names:
            return v
    return None


def protocol(repo, R, name, q, count, pname, lrkey):
    f = repo.func(q)
    g = analyse(repo, q)
    R.analysed(q)
    ser, A = Serial(), AlgL()
    live = [e for e in g.events if not any(ser.cond(c) is False and p for c, p, _ in e.pc)]
    calls = [e for e in live if e.kind == "call" and e.node is not None]

    def same(a, b):
        return equiv(A, ser(a), ser(b)) is None

    backs = [e for e in calls if e.node.k == "op" and callee(e.node) == "backward"]
    R.ob("O01.loop", f"{name}.loops", len(backs) == count, f"{f.file}:{f.line}", "" if len(backs) == count else f"{len(backs)} backward passes, expected one in each of {count} loops")
    for j, b in enumerate(backs):
        tag = name if count == 1 else f"{name} {j + 1}"

        def ob(what, ok, msg, e=b):
            R.ob("O01.loop", f"{tag}.{what}", ok, e.where(), "" if ok else msg)
        lid = loops(b)
        W = [e for e in live if e.kind == "while" and loops(e) == lid]
        inloop = [e for e in calls if loops(e)[: len(lid)] == lid]
        ob("loop", len(W) == 1, "the backward pass is not in a while loop over the epochs")
        if len(W) != 1:
            continue
        W = W[0]
        L = strip(pos(b.node, 0, "self"))
        # path conditions of every pass through the loop body
        base = pcs(W) | {(c, p) for c, p in norm_pairs(W.node)}

        def guards(e):
            return [(c, p) for c, p, t in e.pc if t == "if" and (c, p) not in base and ser.cond(c) is None]

        def empty_guard(c, p):
            return p and any(x.k == "op" and x.a[0] == "numel" or x.k == "op" and x.a[0] == "len" for x in c.subs())
        bad = [show(c)[:80] for c, p in guards(b) if not empty_guard(c, p)]
        ob("backward", not bad, f"the backward pass is skipped depending on {bad}")
        # optimiser
        steps = [e for e in inloop if e.node.k == "op" and callee(e.node) == "step" and pos(e.node, 0, "self").k == "op" and pos(e.node, 0, "self").a[0].startswith("torch.optim.")]
        ob("step", len(steps) == 1 and loops(steps[0]) == lid and not guards(steps[0]) and steps[0].i > b.i,
           "the optimizer does not take exactly one step after the backward pass of every epoch", steps[0] if steps else b)
        if not steps:
            continue
        opt = pos(steps[0].node, 0, "self")
        zero = [e for e in inloop if e.node.k == "op" and callee(e.node) == "zero_grad" and pos(e.node, 0, "self") == opt]
        ok = [e for e in zero if loops(e) == lid and not guards(e)]
        wrong = [e for e in zero if b.i < e.i < steps[0].i]
        ob("reset", bool(ok) and not wrong, "gradients are not reset before the backward pass of every epoch" if not ok else "gradients are reset between the backward pass and the step",
           (wrong or zero or [b])[0])
        lr = [x for x in opt.subs() if x.k == "sub" and show(x) == CFG % lrkey]
        params = pos(opt, 0, "params")
        want = [pos(opt, 99, "lr")] if params is None or params.k != "list" or not any(x.k == "dict" for x in params.a) else None
        if want is None:
            gs = [x for x in params.a if x.k == "dict"]
            want = [v for d in gs for k, v in zip(*d.a[:2]) if show(k) == "'lr'"] if all(len(d.a) >= 2 and isinstance(d.a[0], tuple) and isinstance(d.a[1], tuple) for d in gs) else lr
        okl = bool(lr) and all(x is not None and show(peel(strip(x))).replace("float(", "").replace(")", "") == CFG % lrkey for x in want)
        ob("rate", okl, f"the learning rate is not the configured {lrkey} but {[show(x)[:80] if x is not None else 'the default' for x in want]}", steps[0])
        if pname:
            okp = any(x.k == "op" and x.a[0] == "requires_grad_" and show(first_arg(x)).rpartition(".")[2] == pname for x in params.subs())
            ob("parameters", okp, f"the optimizer does not optimise {pname} with gradients enabled", steps[0])
        # scheduler
        ss = [e for e in inloop if e.node.k == "op" and callee(e.node) == "step" and e is not steps[0] and e not in steps]
        good = [e for e in ss if pos(e.node, 0, "self") is not None and opt in pos(e.node, 0, "self").subs()]
        ob("scheduler", bool(ss) and len(good) == len(ss), "the scheduler does not belong to the optimizer of this loop", (ss or [b])[0])
        if good:
            cond = [[(c, p) for c, p in guards(e)] for e in good]
            plateau = [e for e, gd in zip(good, cond) if len(gd) == 1 and gd[0][1] and "ReduceLROnPlateau" in show(gd[0][0])]
            other = [e for e, gd in zip(good, cond) if len(gd) == 1 and not gd[0][1] and "ReduceLROnPlateau" in show(gd[0][0])]
            ok = len(plateau) == 1 and len(other) == 1 and len(good) == 2 and all(e.i > steps[0].i for e in good)
            ob("scheduler steps", ok, "the scheduler is not stepped exactly once per epoch, after the optimizer", good[0])
            if ok:
                v = pos(plateau[0].node, 1, "metrics")
                ob("scheduler metric", v is not None and same(strip(v), L), "ReduceLROnPlateau does not see the loss of this epoch", plateau[0])
                ob("scheduler epoch", len(other[0].node.a[1]) == 1, "the scheduler is given an epoch or metric although it only counts steps", other[0])
            S0 = pos(good[0].node, 0, "self")
            cfg = [v for k, v in S0.a[1] if k in ("1", "parameters")] if S0.k in ("op", "rcall") else [v for k, v in S0.a[-1] if k in ("1", "parameters")] if isinstance(S0.a[-1], tuple) else []
            ok = "self.scheduler_dict['scheduler_type']" in show(S0) and bool(cfg) and show(cfg[0]) == "self.scheduler_dict"
            ob("scheduler configuration", ok, "the scheduler is not the configured one with the configured parameters", good[0])
        # early stopping
        es = [e for e in inloop if e.node.k == "rcall" and e.node.a[0] == T + "EarlyStopping.step"]
        ok = len(es) == 1 and loops(es[0]) == lid and not guards(es[0]) and es[0].i > b.i
        ob("early stopping", ok, "early stopping is not consulted exactly once per epoch", (es or [b])[0])
        stop = None
        if es:
            stop = es[0].node
            v = dict(stop.a[1])
            ob("early stopping loss", "loss" in v and same(strip(v["loss"]), L), "early stopping does not see the loss of this epoch", es[0])
            made = v.get("self")
            kw = dict(made.a[1]) if made is not None and made.k == "rcall" else {}
            for a, key in (("window_size", "early_stopping_window"), ("patience", "early_stopping_patience"), ("min_improvement", "early_stopping_delta")):
                ob(f"early stopping {a}", a in kw and show(kw[a]) == CFG % key, f"{a} is not the configured {key}", es[0])
            ob("early stopping relative", "relative" not in kw or show(kw["relative"]) == "True", "improvement is not measured relative to the loss", es[0])
            made_ev = [e for e in live if e.kind == "call" and e.node == made]
            ob("early stopping state", not any(loops(e)[: len(lid)] == lid for e in made_ev), "early stopping is created anew in every epoch", es[0])
        # loop condition, epoch counter and loss carried to the condition
        info = g.interp.loopinfo[lid[-1]]
        lvs = {}
        for lv, (fv, inf, at) in g.interp.loopbody.items():
            if inf is info and lv in W.node.subs():
                lvs[lv] = (fv, at)
        loss = [lv for lv, (fv, at) in lvs.items() if same(strip(fv), L)]
        cnt = [lv for lv, (fv, at) in lvs.items() if A.p(ser(fv)) == A.p(lv) + Poly.c(1)]
        ob("loss carried", len(loss) == 1, "the loop condition does not test the loss of the last epoch", W)
        ob("epochs", len(cnt) == 1 and show(cnt[0].a[2]) == "0", "the epochs are not counted from zero in steps of one", W)
        if len(loss) == 1 and len(cnt) == 1:
            sp = spec_graph(repo, q, "return LOSS > float(self.optimizer_dict['tolerance']) and EPOCH <= self.optimizer_dict['max_epoch']").ret()
            sub = {"LOSS": loss[0], "EPOCH": cnt[0]}
            got = A.cond(W.node)
            want = A.cond(replace(sp, sub))
            ob("condition", got == want, f"epochs are not run while the loss exceeds the tolerance and the number of epochs is not reached: {show(W.node)[:160]}", W)
        # leaving the loop
        outs = [c for c, _ in info["breaks"]]
        ok = all(c is not None and stop is not None and c == stop for c in outs) and len(outs) == 1
        ob("break", ok, "the loop is not left exactly when early stopping says so" + (f" but on {[show(c)[:60] if c is not None else 'every pass' for c in outs]}" if outs else ""), W)
        hist = [e for e in inloop if e.node.k == "op" and callee(e.node) == "append" and len(e.node.a[1]) > 1 and same(strip(e.node.a[1][1][1]), L)
                and all(c == stop and not p for c, p in guards(e))]
        ob("history", bool(hist), "the loss of an epoch is not recorded in the history", b)


def replace(n, sub):
    """Reference values: the names LOSS and EPOCH stand for the values carried by the loop of the code."""
    if isinstance(n, tuple):
        return tuple(replace(x, sub) for x in n)
    if not isinstance(n, N):
        return n
    for k, v in sub.items():
        if n.k != "const" and not n.a[1:] and str(n.a[0] if n.a else "").rpartition(".")[2] == k:
            return v
    return n if n.k in ("const", "param") else N(n.k, *[replace(x, sub) for x in n.a])


def norm_pairs(c):
    from ..vf import norm_cond
    return list(norm_cond(c))


def check(repo, R):
    R.rule("O01.stopping", "early stopping compares the first and last loss of a full window, relative to the first if asked, counts windows without sufficient improvement in a row and stops when the patience is used up")
    A = AlgL()
    attrs_compare(repo, R, "O01.stopping", T + "EarlyStopping.step", STEP, A=A)
    spec_compare(repo, R, "O01.stopping", T + "EarlyStopping.step", STEP, A=A)
    attrs_compare(repo, R, "O01.stopping", T + "EarlyStopping.__init__", INIT, A=A)
    R.rule("O01.scheduler", "each scheduler factory passes every configured value, converted, to the matching argument of the scheduler of its name")
    for q, (cls, want) in SCHED.items():
        f = repo.func(T + q)
        where = f"{f.file}:{f.line}"
        R.analysed(T + q)
        r = analyse(repo, T + q).ret()
        ok = r.k == "op" and r.a[0].rsplit(".", 1)[-1] == cls
        R.ob("O01.scheduler", f"{q}.class", ok, where, "" if ok else f"does not return a {cls}")
        if not ok:
            continue
        have = {}
        for k, v in r.a[1]:
            have[POS[cls][int(k)] if k.isdigit() else k] = v
        for a, t in want.items():
            sp = spec_graph(repo, T + q, f"return {t}").ret()
            x = (1, 1, 1) if a not in have else equiv(A, have[a], sp)
            R.ob("O01.scheduler", f"{q}.{a}", x is None, where, "" if x is None else f"{a} is not {t}" + (f" but {show(have[a])}" if a in have else ""))
        for a in sorted(set(have) - set(want)):
            R.ob("O01.scheduler", f"{q}.{a}", False, where, f"{a} is set although the configuration has no such value: {show(have[a])}")
    R.rule("O01.loop", "every epoch of every optimisation loop resets the gradients, computes the loss, runs the backward pass, takes one optimizer step, steps the scheduler and consults early stopping "
           "with the loss of that epoch; the loop ends on early stopping, when the loss reaches the tolerance or after the configured number of epochs")
    for e in ENTRIES:
        protocol(repo, R, *e)

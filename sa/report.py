"""Obligation recording, known findings, evidence and exit codes."""
from __future__ import annotations

import importlib
import json
import os
import sys
import time
import traceback

from .repo import AnalysisError, Repo

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obs = []          # (rule, construct, ok, where, msg)
        self.functions = set()
        self.notes = []
        self.assumptions = []
        self.rules = {}
        self.short = []        # rules with fewer instances than their floor

    def rule(self, name, text):
        """Declare a rule and what it decides."""
        self.rules[name] = text

    def ob(self, rule, construct, ok, where="", msg=""):
        self.obs.append((rule, str(construct), bool(ok), str(where), str(msg)))
        return bool(ok)

    def analysed(self, *quals):
        self.functions.update(quals)

    def floor(self, rule, n):
        """Instance floor: a rule that matches fewer instances than confirmed by hand is broken, not satisfied."""
        k = sum(1 for o in self.obs if o[0] == rule)
        if k < n:
            self.short.append(f"rule {rule}: only {k} instances found, at least {n} were confirmed by hand")


def load_known():
    """known: property=<id> key=<rule>|<construct> <text>   /   fixed: property=<id> <commit> <text>"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known:"):
                body = line[len("known:"):].strip()
                parts = body.split(" ", 2)
                prop = parts[0].split("=", 1)[1]
                key = parts[1].split("=", 1)[1]
                out.append((prop, key, parts[2] if len(parts) > 2 else ""))
    return out


def main(argv):
    prop = argv[0]
    root = os.environ.get("VERIF_REPO", "/repo")
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    R = Report(prop)
    failed = None
    try:
        repo = Repo(root)
        mod = importlib.import_module(f"sa.rules.{prop.lower()}")
        R.tier = tier
        mod.check(repo, R)
        if not R.obs:
            raise AnalysisError("no obligation generated")
        if R.short:
            raise AnalysisError("; ".join(R.short))
    except AnalysisError as e:
        failed = str(e)
    except Exception:
        failed = "internal error\n" + traceback.format_exc()
    known = {k: txt for p, k, txt in load_known() if p == prop}
    bad = [o for o in R.obs if not o[2]]
    hits, viol = {}, []
    for o in bad:
        key = f"{o[0]}|{o[1]}".replace(" ", "_")
        if key in known:
            hits.setdefault(key, o)
        else:
            viol.append(o)
    if failed is not None:
        if not viol:
            print(f"ANALYSIS-ERROR property={prop}: {failed}")
            return 2
        # obligations decided before the analysis stopped stand on their own
        R.notes.append("analysis incomplete: " + failed.splitlines()[0])
    for k, o in hits.items():
        print(f"KNOWN-FINDING: property={prop} {k} {o[3]} {known[k]}")
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    per_rule = {}
    for o in R.obs:
        d = per_rule.setdefault(o[0], {"rule": R.rules.get(o[0], ""), "obligations": 0, "discharged": 0})
        d["obligations"] += 1
        d["discharged"] += o[2]
    samples = []
    seen = {}
    for o in R.obs:
        if seen.get(o[0], 0) < 4:
            seen[o[0]] = seen.get(o[0], 0) + 1
            samples.append({"rule": o[0], "construct": o[1], "where": o[3], "holds": o[2]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": (mod.__doc__ or "").strip(),
            "modules_parsed": len(repo.modules), "functions_indexed": len(repo.funcs),
            "functions_analysed": len(R.functions), "functions": sorted(R.functions)[:60],
            "obligations": len(R.obs), "discharged": sum(o[2] for o in R.obs),
            "rules": per_rule, "samples": samples[:60], "known_findings_hit": sorted(hits),
            "source_digest": repo.digest, "notes": R.notes,
        },
        "assumptions": R.assumptions + ["Python name resolution and annotations in /repo/artist are honest; torch functions have their documented semantics"],
        "wall_s": round(time.time() - t0, 3), "violations": len(viol),
    }
    json.dump(ev, open(os.path.join(evdir, f"{prop}.json"), "w"), indent=1)
    print(f"{prop}: {len(R.obs)} obligations over {len(R.functions)} functions, {len(R.obs) - len(bad)} discharged, "
          f"{len(hits)} known findings, {len(viol)} violations")
    if viol:
        rp = os.path.join(evdir, f"{prop}.violations.txt")
        with open(rp, "w") as f:
            for o in viol:
                line = f"{o[3]}: [{o[0]}] {o[1]}: {o[4]}"
                f.write(line + "\n")
                print(line)
        print(f"VIOLATION property={prop} replay=evidence/{prop}.violations.txt")
        return 1
    return 0

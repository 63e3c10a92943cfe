"""Generate properties.jsonl and MANIFEST.json from tools/props.py (one table)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NA, NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lines, checks, na = [], [], []
for p in PROPS + NA:
    anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    lines.append({"id": p["id"], "title": p["title"], "statement": p["st"],
                  "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"], "anchors": anchors})
    assert len(p["title"]) <= 80, p["id"]
for p in PROPS:
    if not os.path.exists(os.path.join(V, "sa", "rules", p["id"].lower() + ".py")):
        raise SystemExit("no rule file for " + p["id"])
    checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']} --thorough",
                   "technique": p["tech"], "level": "other", "level_note": p["note"]})
for p in NA:
    na.append({"property": p["id"], "reason": p["reason"]})
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in lines))
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": checks, "not_applicable": na, "notes": NOTES},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

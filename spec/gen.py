#!/usr/bin/env python3
"""Generate /verif/properties.jsonl and /verif/MANIFEST.json from spec/props.py.
A property is claimed when props/<id>/ exists with a target.py or *.cpp; else it is not_applicable."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        files = list(dict.fromkeys(p["files"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": files, "state": p["state"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
checks, na = [], []
for p in P:
    if p["na"] is None and os.path.exists(os.path.join(root, "props", p["id"] + ".cpp")):
        cmd = "python3 check.py " + p["id"]
        checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd + " --tier thorough",
                       "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "All checks: generated-input search (own choice-sequence PBT engine in fw/, coverage- and comparison-guided, shrinking) against explicit oracles; see DESIGN.md."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties;", len(checks), "claimed")

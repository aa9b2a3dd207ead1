#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions in tools/props/*.json."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for fn in sorted(glob.glob(os.path.join(V, "tools/props/*.json"))):
    d = json.load(open(fn))
    c = d.pop("check")
    props.append(d)
    if c.get("not_applicable"):
        na.append({"property": d["id"], "reason": c["not_applicable"]})
        continue
    cmd = "/opt/venv/bin/python /verif/run.py %s" % d["id"]
    checks.append({
        "property": d["id"], "quick_cmd": cmd + " quick", "thorough_cmd": cmd + " thorough",
        "technique": c["technique"], "level": "model_checking", "level_note": c["note"],
    })
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "Every check imports i-PI from /repo's working tree (pure Python, nothing to build) and explores real executions of it."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(props), "properties", len(checks), "checks")

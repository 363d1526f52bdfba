"""Writes MANIFEST.json and vlib/meta.json for every property that has a module in props/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
from meta_text import META, NA
checks, meta = [], {}
na = []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(V, "props", i.lower() + ".py")):
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
        continue
    m = META[i]
    meta[i] = {"root": m.get("root", False), "rule": m["rule"], "assumptions": m.get("assumptions", [])}
    checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
                   "technique": m["technique"], "level": "exploration", "level_note": m["note"]})
json.dump({"version": 1, "setup_cmd": "./check --help > /dev/null && /opt/venv/bin/python -c 'import sys; sys.path.insert(0, \".\"); from vlib import hyp'",
           "checks": checks, "not_applicable": na,
           "notes": "Property-based testing with Hypothesis; see DESIGN.md. known_findings.json lists defects found: repaired (fixed) and recorded (known)."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
json.dump(meta, open(os.path.join(V, "vlib", "meta.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property which has a harness is claimed."""
import json, os, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTES = {  # id: (technique, level note)
 "C01": ("property-based testing against a reference projection", "Reference projection in extended precision, exhaustive over zooms, random over coordinates, tiles and boxes."),
}
NA = {}
exec(open(os.path.join(V, "tools", "notes.py")).read()) if os.path.exists(os.path.join(V, "tools", "notes.py")) else None
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line); i = p["id"]
    has = os.path.exists(f"{V}/harness/props/{i}.cpp") or os.path.exists(f"{V}/csharp/{i}.cs")
    if has:
        t, n = NOTES.get(i, ("property-based testing with generated inputs against a model", "Random exploration; no absence proof."))
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "bash ./build.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are generated-input searches by the engine in harness/pbt.cpp; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not claimed")

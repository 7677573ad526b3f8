#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the list of properties the harness implements."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
have = subprocess.run([f"{root}/check.sh", "list"], capture_output=True, text=True, check=True).stdout.split()
notes = json.load(open(f"{root}/tools/levels.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        n = notes[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": n["technique"],
            "level": "exploration",
            "level_note": n["note"],
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the harness uses only lc3-ensemble's public API. Known findings and repaired defects: KNOWN_FINDINGS.txt."}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")

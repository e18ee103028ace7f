#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties the driver has a checker for."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv = ["driver"]
src = open(os.path.join(root, "tools", "driver.py")).read().split("def mirror")[0]
ns = {"__file__": os.path.join(root, "tools", "driver.py")}
exec(src, ns)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
KIND = json.load(open(os.path.join(root, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in ns["PACKAGES"]:
        t = KIND.get(i) or KIND[i[0]]
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": t["technique"],
                       "level": "model_checking", "level_note": t["note"]})
    else:
        na.append({"property": i, "reason": KIND.get("na", {}).get(i, "no checker built yet")})
m = {"version": 1, "setup_cmd": "./check setup",
     "hooks": {"guard": "none", "enable": "no hooks are needed: private state is read from the storage the checkers own", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "All verdicts come from exhaustive enumeration of bounded behaviours of the real code (see DESIGN.md). The commits in /repo starting with 'fix:' repair defects the checks found; see known-findings.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")

#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the list of checks below.
import json, os, subprocess
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTES = json.load(open(os.path.join(ROOT, "tools", "checks.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    n = NOTES["checks"].get(p)
    if n and os.path.exists(os.path.join(ROOT, "checks", p + ".py")):
        checks.append({"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "./check %s --thorough" % p,
                       "technique": n["technique"], "level": "model_checking", "level_note": n["note"]})
    else:
        na.append({"property": p, "reason": NOTES["not_applicable"].get(p, "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": NOTES["hooks"], "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")

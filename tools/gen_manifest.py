#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have a check."""
import json, os, sys
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
T = json.load(open("tools/techniques.json"))
props = [json.loads(l) for l in open("properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    if i not in T:
        continue
    t = T[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py run %s --tier quick" % i,
                   "thorough_cmd": "python3 check.py run %s --tier thorough" % i,
                   "technique": t[0], "level": "exploration", "level_note": t[1]})
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "hooks": {"guard": "cfg(iota_mam_verif)", "enable": "RUSTFLAGS=--cfg iota_mam_verif (check.py sets it when it builds the harness)",
               "source_commits": T["hooks"]},
     "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": T.get("na", {}).get(p["id"], "no check yet")} for p in props if p["id"] not in T],
     "notes": T["notes"]}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")

#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(H, "tools", "manifest_table.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for p in props:
    if p in CHECKS:
        t, n = CHECKS[p]
        checks.append({"property": p, "quick_cmd": "python3-vt check.py %s" % p, "thorough_cmd": "python3-vt check.py %s --thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "other", "level_note": n})
na = [{"property": p, "reason": NA.get(p, "no check yet")} for p in props if p not in CHECKS]
m = {"version": 1, "setup_cmd": "python3-vt -m compileall -q check.py checks engine", "checks": checks, "not_applicable": na,
     "notes": "All checks parse /repo's current sources on every run; nothing of the repository is built or executed. No hooks are used in /repo."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")

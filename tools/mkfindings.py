#!/usr/bin/env python3
"""Writes known_findings.json.  Entries with status "fixed" suppress nothing."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(H, "tools", "findings_table.py")).read())
out = []
for p, commit, what in FIXED:
    out.append({"property": p, "status": "fixed", "key": "", "commit": commit, "text": "fixed: property=%s %s %s" % (p, commit, what)})
for p, key, what in KNOWN:
    out.append({"property": p, "status": "known", "key": key, "text": what})
json.dump({"findings": out}, open(os.path.join(H, "known_findings.json"), "w"), indent=1)
print(len(FIXED), "fixed", len(KNOWN), "known")

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and PROPS."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS
M = "core/src/memory/"
I = "core/include/vecmem/"
L = []

def P(id, title, statement, over, text, why, files, mech):
    L.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [
                  {"name": n, "where": w} for n, w in mech]}})

exec(open(os.path.join(V, "tools", "proptable.py")).read())
ids = [p["id"] for p in L]
assert len(ids) == len(set(ids))
for p in L:
    assert len(p["title"]) <= 80, p["title"]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in L:
        f.write(json.dumps(p) + "\n")
checks = []
na = []
for p in L:
    i = p["id"]
    if i not in PROPS:
        na.append({"property": i, "reason": NOT_APPLICABLE[i]})
        continue
    c = PROPS[i]
    checks.append({"property": i,
                   "quick_cmd": "python3 tools/check.py %s quick" % i,
                   "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                   "technique": c["technique"], "level": c["level"],
                   "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "python3 tools/check.py --build",
     "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(L), "properties,", len(checks), "checks,", len(na), "not claimed")

#!/usr/bin/env python3
"""Fill DESIGN.md from tools/DESIGN.tmpl, the evidence of the last runs and the
planted bugs."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prev = os.path.join(V, "tools", "last_runs.json")
last = json.load(open(prev)) if os.path.exists(prev) else {}
for f in sorted(glob.glob(V + "/evidence/C*.json")):
    d = json.load(open(f))
    c = d["coverage"]
    e = last.setdefault(d["property"], {})
    if d["violations"]:
        continue
    ex = sum(x["executions"] for x in c["scenarios"].values())
    e[d["tier"]] = [ex, round(d["wall_s"] - c.get("build_s", 0)), not c["exhaustive"]]
json.dump(last, open(prev, "w"), indent=1, sort_keys=True)
rows = []
def cell(x):
    return f"{x[0]:,} | {x[1]} s" + (" (budget)" if x[2] else "") if x else "- | -"
for k in sorted(last):
    rows.append(f"| {k} | {cell(last[k].get('quick'))} | {cell(last[k].get('thorough'))} |")
bugs = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    bugs.append(f"| {i} | {m['property']} | {m['needs']} |")
t = open(V + "/tools/DESIGN.tmpl").read()
t = t.replace("@TABLE@", "\n".join(rows)).replace("@BUGS@", "\n".join(bugs))
open(V + "/DESIGN.md", "w").write(t)

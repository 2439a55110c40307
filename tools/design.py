#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md from the seeds and the evidence of the last quick runs."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def seeds():
    rows = ["| bug | check | what it breaks | needs | first |", "|---|---|---|---|---|"]
    for d in sorted(os.listdir(V + "/seeded")):
        m = json.load(open(V + "/seeded/" + d + "/meta.json"))
        rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], "missed" if d in MISSED else "caught"))
    return "\n".join(rows)
MISSED = set(open(V + "/tools/missed-first.txt").read().split())
def table():
    rows = ["| check | executions | transitions | states | complete | build + run (s) |", "|---|---|---|---|---|---|"]
    for i in range(1, 99):
        p = V + "/evidence/C%02d.json" % i
        if not os.path.exists(p): continue
        e = json.load(open(p)); c = e["coverage"]
        rows.append("| C%02d %s | %d | %d | %d | %s | %.0f |" % (i, e["tier"], c["traces_validated_against_impl"], c["transitions"], c["states"], "yes" if c["exhaustive"] else "no", e["wall_s"]))
    return "\n".join(rows)
s = open(V + "/DESIGN.md").read()
for name, f in (("seeds", seeds), ("table", table)):
    s = re.sub(r"<!-- %s -->.*?<!-- end -->" % name, lambda m: "<!-- %s -->\n%s\n<!-- end -->" % (name, f()), s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)

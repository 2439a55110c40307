#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run after editing."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, note=None, technique=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe or [], state=state or [], note=note, technique=technique, na=na))

exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p["state"]: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        if p["observe"]: a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["text"]),
                                why_tests_cant=p["why"], anchors=a)) + "\n")

checks = json.load(open(os.path.join(V, "checks.json")))
man = dict(version=1,
           setup_cmd="python3 -c \"import json;json.load(open('checks.json'))\" && g++ --version >/dev/null && cmake --version >/dev/null && mkdir -p build out evidence",
           checks=[], not_applicable=[],
           notes="Every check builds /repo's working tree itself (library sources as listed by the project's CMake) "
                 "with -DREFLECT_USE_EXCEPTIONS=1 and sanitizers, outside /repo. See DESIGN.md.")
for p in P:
    if p["id"] in checks:
        man["checks"].append(dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"],
                                  thorough_cmd="python3 run.py %s thorough" % p["id"],
                                  technique=p["technique"] or "bounded exhaustive exploration of the real code against a reference model",
                                  level="model_checking", level_note=p["note"] or
                                  "Every execution within the stated bounds was run on the real code; beyond them nothing is claimed."))
    else:
        man["not_applicable"].append(dict(property=p["id"], reason=p["na"] or "no check built yet"))
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(man["checks"]), "checks")
missing = [c for c in checks if c not in [p["id"] for p in P]]
assert not missing, missing

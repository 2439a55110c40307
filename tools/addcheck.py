#!/usr/bin/env python3
"""addcheck.py ID '{"harness": [...]}' : adds or replaces an entry of checks.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks.json")
c = json.load(open(p)); c[sys.argv[1]] = json.loads(sys.argv[2])
json.dump(dict(sorted(c.items())), open(p, "w"), indent=1); open(p, "a").write("\n")

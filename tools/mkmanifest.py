#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist in vf/checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools/levels.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "vf/checks/%s.py" % i.lower())):
        n = NOTES.get(i, {})
        checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
                           technique=n.get("technique", "property-based testing of the real programs against an oracle"),
                           level=n.get("level", "exploration"),
                           level_note=n.get("note", "Random search over generated inputs; absence of a violation is "
                                                    "evidence, not proof.")))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, {}).get("na", "no check has been built yet")))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="No hooks: the checks drive the unmodified programs, built from /repo's working tree with "
                     "sanitizers into /verif/build, through their network, file and process interfaces."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

#!/usr/bin/env python3-vt
"""Writes DESIGN.md: tools/design_head.md, one section per property (from the checks' own rule and
assumptions, tools/notes.json and seeded/*/meta.json), tools/design_tail.md."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf.run import load
notes = json.load(open(os.path.join(V, "tools/notes.json")))
caught = json.load(open(os.path.join(V, "tools/caught.json")))
seeds = {}
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((f.split("/")[-2], m))
out = [open(os.path.join(V, "tools/design_head.md")).read().rstrip(), ""]
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    out += ["### %s %s" % (i, p["title"]), ""]
    try:
        c = load(i)
    except ImportError:
        out += ["Not decided: see MANIFEST.json.", ""]
        continue
    n = notes.get(i, {})
    out += ["*Cases and oracle.* " + c.rule, ""]
    if n.get("how"):
        out += ["*Machinery.* " + n["how"], ""]
    out += ["*Why beyond the tests.* " + p["why_tests_cant"], ""]
    b = "%d cases (quick), up to %d (thorough, at most %d s)." % (c.cases["quick"], c.cases["thorough"], c.budget["thorough"])
    if n.get("cost"):
        b += " " + n["cost"]
    out += ["*Bounds and cost.* " + b, ""]
    if c.assumptions:
        out += ["*Assumptions.* " + "; ".join(c.assumptions) + ".", ""]
    if n.get("dontcare"):
        out += ["*Deliberately not judged.* " + n["dontcare"], ""]
    s = seeds.get(i, [])
    if s:
        out += ["*Planted bugs.* " + "; ".join("`%s` (%s; needs %s): %s" % (
            k, m["what_it_breaks"].rstrip("."), m["needs"].rstrip("."), caught.get(k, "caught")) for k, m in s) + ".", ""]
out.append(open(os.path.join(V, "tools/design_tail.md")).read().rstrip())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")

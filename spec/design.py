#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md from spec/props.py, the registry, known_findings.jsonl and seeded/ (spec/DESIGN.in is the source)."""
import json, os, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, D)
from spec.props import PROPS, NA
from ppk import registry
t = open(D + "/spec/DESIGN.in").read()
o = []
for p in PROPS:
    r = registry.R[p["id"]]
    o.append("### %s %s\n*Specified:* %s\n\n*Decided by:* %s (`ppk/%s.py`, `%s`). %s\n\n*Assumes:* %s.\n\n*Beyond the tests:* %s\n" % (
        p["id"], p["title"], p["statement"], p["technique"], r.mod, r.fn, r.expl, "; ".join(r.assume), p["why_tests_cant"]))
o.append("### Not applicable\n" + "\n".join("* %s %s: %s" % (x["p"]["id"], x["p"]["title"], x["reason"]) for x in NA) + "\n")
t = t.replace("@@PROPS@@", "\n".join(o))
L = [json.loads(l) for l in open(D + "/known_findings.jsonl") if l.strip()]
t = t.replace("@@FIXES@@", "\n".join("* " + l["what"] for l in L))
rows = ["| id | property | needs | caught by |", "|---|---|---|---|"]
c = json.load(open(D + "/spec/caught.json")) if os.path.exists(D + "/spec/caught.json") else {}
for s in sorted(os.listdir(D + "/seeded")):
    m = json.load(open(D + "/seeded/%s/meta.json" % s))
    rows.append("| %s | %s | %s: %s | %s |" % (s, m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), c.get(s, "?")))
t = t.replace("@@SEEDS@@", "\n".join(rows))
open(D + "/DESIGN.md", "w").write(t)

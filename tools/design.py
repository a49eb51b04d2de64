#!/usr/bin/env python3
"""writes DESIGN.md from design_head.md, props.py, design_notes.py, the planted bugs and the findings file"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from design_notes import N
import io
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
M = json.load(open(V + "/MANIFEST.json"))
claimed = {c["property"]: c for c in M["checks"]}
na = {x["property"]: x["reason"] for x in M["not_applicable"]}
o = io.StringIO()
o.write(open(V + "/tools/design_head.md").read() + "\n## Properties decided\n\n")
K = json.load(open(V + "/known_findings.json"))
K = K if isinstance(K, list) else K["findings"]
S = {}
for d in sorted(os.listdir(V + "/seeded")) if os.path.isdir(V + "/seeded") else []:
    m = json.load(open(V + "/seeded/" + d + "/meta.json"))
    S.setdefault(m["property"], []).append((d, m))
for p in sorted(P, key=lambda p: p["id"]):
    if p["id"] not in claimed: continue
    c = claimed[p["id"]]
    o.write("### %s %s\n\n" % (p["id"], p["title"]))
    o.write("*What.* %s\n\n*How.* %s.\n\n" % (p["statement"], c["technique"][0].upper() + c["technique"][1:]))
    if p["id"] in N: o.write(N[p["id"]].strip() + "\n\n")
    o.write("*Bounds.* %s\n\n" % c["level_note"])
    b = p.get("why_tests_cant") or ""
    if b: o.write("*Beyond the tests.* %s\n\n" % b)
    F = [k for k in K if k["property"] == p["id"]]
    if F:
        o.write("*Defects found.* %d:\n" % len(F))
        for k in F: o.write("* %s (`%s`)\n" % (k["text"], k["key"]))
        o.write("\n")
    if p["id"] in S:
        o.write("*Planted bugs caught:* " + "; ".join("`%s` (%s)" % (d, m["what_it_breaks"]) for d, m in S[p["id"]]) + ".\n\n")
o.write("## Not applicable\n\nThese guarantees matter most to a user and are out of reach of this technique: each is a statement about the value of a computation over unbounded data.\n\n")
for p in P:
    if p["id"] in na: o.write("* **%s %s**: %s\n" % (p["id"], p["title"], na[p["id"]]))
o.write(open(V + "/tools/design_tail.md").read())
open(V + "/DESIGN.md", "w").write(o.getvalue())

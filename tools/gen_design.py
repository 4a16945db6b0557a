#!/usr/bin/env python3
"""Fills the per-property table and the seeded-bug matrix of DESIGN.md from DESIGN.in.md, the evidence files and tools/catch.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(here, "tools/DESIGN.in.md")).read()
rows = ["| property | planted changes | caught by the quick check |", "|---|---|---|"]
m = {}
c = json.load(open(os.path.join(here, "tools/catch.json")))
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    x = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append("| %s | %s: %s (needs: %s) | %s |" % (x["property"], d, x["what_it_breaks"], x["needs"], c.get(d, "?")))
head, body = rows[:2], sorted(rows[2:])
t = t.replace("@SEEDED@", "\n".join(head + body))
cost = ["| property | quick: cases, time | spaces |", "|---|---|---|"]
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)["id"]
    f = os.path.join(here, "evidence", p + ".json")
    if not os.path.exists(f): continue
    e = json.load(open(f))
    if e["tier"] != "quick": continue
    cost.append("| %s | %.1f M | %d |" % (p, e["coverage"]["cases"] / 1e6, len(e["coverage"]["spaces"])))
t = t.replace("@COST@", "\n".join(cost).replace("cases, time", "cases"))
open(os.path.join(here, "DESIGN.md"), "w").write(t)

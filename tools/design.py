#!/usr/bin/env python3
"""Appends the per-property part of DESIGN.md (between the markers) from checks.json, properties.jsonl, known_findings.json and seeded/."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(V + "/properties.jsonl")]; C = json.load(open(V + "/checks.json")); M = json.load(open(V + "/MANIFEST.json"))
na = {x["property"]: x["reason"] for x in M["not_applicable"]}
o = ["<!-- generated: tools/design.py -->", "## Properties, bounds and checks", ""]
for p in P:
    o += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], ""]
    if p["id"] in na: o += ["Not applicable: " + na[p["id"]], ""]; continue
    c = C[p["id"]]
    o += ["Decided by `harness/src/bin/%s.rs`:" % c["bin"], "", "| entry | what | bounds (quick) | thorough |", "|---|---|---|---|"]
    for e in c["entries"]: o.append("| %s | %s | %s | %s |" % (e["entry"], e["what"], e["bounds"], e.get("bounds_thorough", "same") + (" (thorough only)" if e.get("thorough_only") else "")))
    o += ["", "Outside the bounds: " + (c["outside"] or "nothing beyond the sizes listed") + ".", ""]
    if c["assumptions"]: o += ["Assumptions: " + "; ".join(c["assumptions"]) + ".", ""]
o += ["## Findings in the repository", ""]
for k in json.load(open(V + "/known_findings.json"))["findings"]:
    o.append("- " + (k["status"] if k["status"].startswith("fixed") else "open: property=%s %s" % (k["property"], k["what"])))
o += ["", "## Planted bugs", "", "| seed | property | breaks | needs | result |", "|---|---|---|---|---|"]
res = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % s)); o.append("| %s | %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"], m["needs"], res.get(s, "not run")))
d = open(V + "/DESIGN.md").read().split("<!-- generated")[0].rstrip() + "\n\n"
open(V + "/DESIGN.md", "w").write(d + "\n".join(o) + "\n")

#!/usr/bin/env python3
"""Writes DESIGN.md from docs/design_head.md, tools/props.py, properties.jsonl, known_findings.json, docs/planned.json and seeded/*/meta.json."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS
out = []
planned = json.load(open(os.path.join(V, "docs/planned.json"))) if os.path.exists(os.path.join(V, "docs/planned.json")) else {}
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    out.append("### %s %s\n" % (d["id"], d["title"]))
    p = PROPS.get(d["id"])
    if p:
        out.append("*Decided by:* %s (`%s`).\n" % (p["technique"], ", ".join("harness/" + s for s in p["src"])))
        out.append("*Cases and oracle:* " + p["rule"].replace("Cases are choice sequences: fresh random ones plus mutations of earlier ones that reached new code (inline coverage counters). ", "") + "\n")
        if p.get("design"):
            out.append(p["design"] + "\n")
        out.append("*Bounds and trust:* " + p["note"] + "\n")
        if p["assumptions"]:
            out.append("*Assumes:* " + "; ".join(p["assumptions"]) + ".\n")
    else:
        out.append("*Planned:* %s\n" % planned.get(d["id"], "-"))
    out.append("*Why beyond the tests:* " + d["why_tests_cant"] + "\n")
kf = json.load(open(os.path.join(V, "known_findings.json")))
fx = "\n".join("* " + f for f in kf["fixed"])
fi = "\n".join("* property=%s (%s): %s" % (k["property"], k["id"], k["what"]) for k in kf["findings"]) or "* none"
rows = []
caught = {}
cf = os.path.join(V, "docs/caught.json")
if os.path.exists(cf):
    caught = json.load(open(cf))
for m in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    i = os.path.basename(os.path.dirname(m))
    j = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (i, j["property"], j["what_it_breaks"].replace("|", "/"), caught.get(i, "not run")))
t = open(os.path.join(V, "docs/design_head.md")).read()
t = t.replace("@@PROPS@@", "\n".join(out)).replace("@@FIXED@@", fx).replace("@@FINDINGS@@", fi)
t = t.replace("@@SEEDED@@", "| change | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(t)

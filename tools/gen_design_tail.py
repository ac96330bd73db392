#!/usr/bin/env python3
"""Rewrites the generated section of DESIGN.md: bounds, fixes and planted bugs."""
import glob, importlib, json, os, re, sys
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, V)
out = ["## Bounds per check (generated from the check modules)\n"]
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    m = importlib.import_module("mc.props." + p["id"].lower())
    out.append("* **%s** quick: %s. Thorough: %s." % (p["id"], m.BOUNDS["quick"], m.BOUNDS["thorough"]))
out.append("\n## Planted bugs (`seeded/`) and the checks that catch them\n")
det = json.load(open(V + "/tools/detection.json")) if os.path.exists(V + "/tools/detection.json") else {}
out.append("| planted bug | property | needs | caught by |\n|---|---|---|---|")
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    out.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), det.get(i, "not run")))
s = open(V + "/DESIGN.md").read()
mark = "<!-- generated below -->"
s = s[:s.index(mark)] if mark in s else s.rstrip() + "\n\n"
open(V + "/DESIGN.md", "w").write(s + mark + "\n" + "\n".join(out) + "\n")

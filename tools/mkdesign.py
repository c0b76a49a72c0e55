#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.in, known-findings.json, seeded/*/meta.json (and tools/caught.json) and harness/specs.py."""
import json, os, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "harness"))
import specs
t = open(os.path.join(H, "tools/DESIGN.in")).read()
fx = []
for f in json.load(open(os.path.join(H, "known-findings.json")))["findings"]:
    w = f["what"].split(" ", 3)
    fx.append("| %s | %s | %s |" % (f["property"], f["id"], w[3]))
c = json.load(open(os.path.join(H, "tools/caught.json")))
sd = ["| bug | property | what it breaks | needs | caught |", "|---|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(H, "seeded/*/meta.json"))):
    j = json.load(open(m)); n = os.path.basename(os.path.dirname(m))
    sd.append("| %s | %s | %s | %s | %s |" % (n, j["property"], j["what_it_breaks"].replace("|", "/"), j["needs"].replace("|", "/"), c.get(n, "not run")))
bd = []
for k, v in sorted(specs.SPECS.items()):
    for h in v["harnesses"]: bd.append("* %s `%s`: %s" % (k, h["name"], h.get("bounds", "")))
t = t.replace("@FIXES@", "\n".join(fx)).replace("@SEEDED@", "\n".join(sd)).replace("@BOUNDS@", "\n".join(bd))
open(os.path.join(H, "DESIGN.md"), "w").write(t)

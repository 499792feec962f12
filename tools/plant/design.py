#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md and the table of planted bugs (results.json is kept by try.py)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(H))
res = json.load(open(H + "/results.json"))
out = open(H + "/design_head.md").read()
out += """## 5. Planted bugs

Kept in `seeded/`, written from the properties and the code; "caught by" lists the checks that reported it when `tools/plant/try.py` last ran
(each is run against its own property's check; others only where stated).

| bug | property | needs | caught by |
|---|---|---|---|
"""
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    r = res.get(i, {})
    c = ", ".join(k for k in sorted(r) if r[k] == "caught") or ("**missed**" if r else "?")
    out += "| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"].replace("|", "/").replace("\n", " "), c)
tail = H + "/design_tail.md"
if os.path.exists(tail):
    out += "\n" + open(tail).read()
open(V + "/DESIGN.md", "w").write(out)

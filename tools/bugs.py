#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md (documentation only; no check runs this)."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AFTER = {
    "b30": "lists read on their own, and cut, added to C06",
    "b42": "`MC_Text` added",
    "b43": "`MC_Schema large` added to C01",
    "b48": "`MC_Ops` added to C09",
    "b49": "boolean fields among the unknown ones of `MC_Envelope`",
    "b52": "long texts added to `MC_Text` and C07",
}
AFTER.update(json.load(open(os.path.join(ROOT, "tools", "bugs.json"))) if os.path.exists(os.path.join(ROOT, "tools", "bugs.json")) else {})
rows = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    i = os.path.basename(d)
    rows.append("| %s | %s | %s | %s | %s quick%s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), m["property"],
                                                     "; after: " + AFTER[i] if i in AFTER else ""))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
k = s.index("| bug | property |")
open(p, "w").write(s[:k] + "\n".join(rows) + "\n")

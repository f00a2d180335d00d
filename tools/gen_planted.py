#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(os.path.join(here, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["needs"].replace("|", "or"), m["what_it_breaks"].replace("|", "or"), m.get("caught_by", m["property"])))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
head = s[:s.index("## Planted bugs")]
open(p, "w").write(head + """## Planted bugs

Each compiles, passes the 112 tests, and has a demonstration. The last column names the check (quick tier) that reports it;
several are reported by other checks as well.

| change | needs | breaks | caught by |
|---|---|---|---|
""" + "\n".join(rows) + "\n")

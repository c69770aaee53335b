#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {f.split('/')[-2]} | {m['property']} | {m['what_it_breaks']} |")
text = "\n".join(["<!-- bugs -->", "| planted bug | caught by | what it breaks |", "|---|---|---|", *rows, "<!-- /bugs -->"])
p = root + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: text, s, flags=re.S)
open(p, "w").write(s)

#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | needs | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    with open(os.path.join(root, "seeded", d, "meta.json")) as f:
        m = json.load(f)
    c = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append(f"| {d} | {m.get('caught_by', m['property'])} | {c(m['needs'])} | {c(m['what_it_breaks'])} |")
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)

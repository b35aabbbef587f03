#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
rows = []
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} |\n")
s = open("/verif/DESIGN.md").read()
s = re.sub(r"(\| bug \| property / caught by \| needs \|\n\|---\|---\|---\|\n)(\|.*\n)*", lambda m: m.group(1) + "".join(rows), s)
open("/verif/DESIGN.md", "w").write(s)

#!/usr/bin/env python3
"""tools/seedtable.py: rewrites the table of planted bugs in DESIGN.md (between its markers) from seeded/*/meta.json.
seeded/caught.tsv records what tools/checkseed.sh last said: name, checks that reported it."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = dict(l.rstrip("\n").split("\t", 1) for l in open(f"{V}/tools/caught.tsv")) if os.path.exists(f"{V}/tools/caught.tsv") else {}
rows = []
for m in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    n, d = os.path.basename(os.path.dirname(m)), json.load(open(m))
    rows.append((d["property"], n, d["what_it_breaks"].replace("|", "/"), caught.get(n, "?")))
t = "| planted bug | breaks | what | caught by |\n|---|---|---|---|\n" + "".join(f"| {n} | {p} | {w} | {c} |\n" for p, n, w, c in sorted(rows))
s = open(f"{V}/DESIGN.md").read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- end -->)", lambda x: x[1] + t + x[2], s, flags=re.S)
open(f"{V}/DESIGN.md", "w").write(s)

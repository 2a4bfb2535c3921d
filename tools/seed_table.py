#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (column "caught": of the last plant.py --check)."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
missed = set(sys.argv[1:])
rows = []
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "\\|").replace("\n", " "), "no" if d in missed else "yes"))
L = s.split("\n")
at = [i for i, l in enumerate(L) if re.match(r"\| C\d\d-", l)]
L[at[0]:at[-1] + 1] = rows
open(p, "w").write("\n".join(L))
print(len(rows), "rows")

#!/usr/bin/env python3
# catchtable.py FILE: writes the output of tools/catch.sh in FILE as the table of planted bugs into DESIGN.md.
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for l in open(sys.argv[1]):
    m = re.match(r"(\S+) \((C\d+)\): (.*)", l)
    if m:
        out[m.group(1)] = (m.group(2), m.group(3).strip())
rows = ["| bug | property | needs | result of the quick check of that property |", "|---|---|---|---|"]
for id in sorted(os.listdir(V + "/seeded")):
    meta = json.load(open(f"{V}/seeded/{id}/meta.json"))
    p, r = out.get(id, (meta["property"], "not run"))
    m = re.match(r"caught in (\d+) s: ([\w/-]+)", r)
    r = f"caught ({m.group(2)}, {m.group(1)} s)" if m else r[:60]
    rows.append(f"| {id} | {p} | {meta['needs']} | {r} |")
d = open(V + "/DESIGN.md").read()
a = d.index("### Planted bugs and the checks that catch them")
b = d.index("\n## ", a)
d = d[:a] + "### Planted bugs and the checks that catch them\n\n" + "\n".join(rows) + "\n" + d[b:]
open(V + "/DESIGN.md", "w").write(d)

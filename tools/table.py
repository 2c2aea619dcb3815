#!/usr/bin/env python3
"""table.py <output of seed.sh>: the detection table of DESIGN.md (between its two marks)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = {}
for l in open(sys.argv[1]):
    m = re.match(r"(\S+) (C\d\d) demo=(\d+)/(\d+) test=(\d+) lines\S+=(\d+)-(\d+) check=(\d+)", l)
    if m: r[m[1]] = (m[2], m[3] == "0" and m[4] != "0" and m[5] == "0", m[8] == "1", m[6] != "0")
rows = []
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    meta = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    x = r.get(d)
    rows.append(f"| {meta['property']} | {d} | {meta['needs']} | {'not run' if not x else 'caught' if x[2] else 'MISSED'} |")
rows.sort()
t = "| Check | Planted bug | Needs | Quick check |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
a, b = "<!-- table -->\n", "<!-- end of table -->\n"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + t + s[j:])
print(len(rows), "bugs,", sum("| caught |" in x for x in rows), "caught")

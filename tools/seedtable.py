#!/usr/bin/env python3
"""seedtable.py RUN.txt: writes the table of planted changes into DESIGN.md from the output of tools/seedrun.sh"""
import json, os, re, sys
caught = {}
for l in open(sys.argv[1], errors="replace"):
    m = re.match(r"(s[a-z]\d\d) (\w\d\d) rc=(\d+) ?(.*)", l)
    if m:
        caught[m[1]] = "caught" if m[3] == "1" and f"property={m[2]}" in m[4] else "MISSED"
rows = []
for s in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{s}/meta.json"))
    rows.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(s, 'not run')} |")
d = open("DESIGN.md").read()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
t = a + "| change | check | what it breaks | what it needs | quick check |\n|---|---|---|---|---|\n" + "\n".join(r.replace("||", "\\|\\|") for r in rows) + "\n" + b
d = re.sub(re.escape(a) + ".*?" + re.escape(b), lambda _: t, d, flags=re.S) if a in d else d.rstrip() + "\n\n## Planted changes and what catches them\n\n" + t + "\n"
open("DESIGN.md", "w").write(d)
print(len(rows), [k for k, v in caught.items() if v != "caught"])

#!/usr/bin/env python3
"""Development aid: writes the table of planted bugs in DESIGN.md from the output of seedtest.py.

    seedtest.py > FILE; seedtable.py FILE
"""
import json, os, re, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
results = {}
for line in open(sys.argv[1], encoding="utf-8"):
    if m := re.match(r"(caught|MISSED \(\d\)) (\S+) (C\d\d) (?:(\w+):)?", line):
        results[m[2]] = (m[3], m[4] if m[1] == "caught" else "not caught")
rows = ["| planted bug | needs | check: violation |", "|---|---|---|"]
for name in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    meta = json.load(open(os.path.join(HERE, "seeded", name, "meta.json"), encoding="utf-8"))
    prop, what = results.get(name, (meta["property"], "not run"))
    rows.append(f"| {name} | {meta['needs'].rstrip('.').replace('|', '/')} | {prop}: {what} |")
path = os.path.join(HERE, "DESIGN.md")
text = open(path, encoding="utf-8").read()
start, end = "<!-- planted -->\n", "\n<!-- end -->"
if "SEEDTABLE" in text:
    text = text.replace("SEEDTABLE", start + end)
head, rest = text.split(start, 1)
open(path, "w", encoding="utf-8").write(head + start + "\n".join(rows) + end + rest.split(end, 1)[1])
print(len(rows) - 2, sum(v[1] in ("not caught",) for v in results.values()))

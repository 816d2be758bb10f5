#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json, keeping the remarks.
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
s = open("DESIGN.md").read()
head = "| bug | check | what it breaks | remark |\n|---|---|---|---|\n"
i = s.index(head) + len(head)
j = i
old = {}
while s[j:j+1] == "|":
    k = s.index("\n", j)
    cells = [c.strip() for c in s[j:k].split("|")]
    old[cells[1]] = cells[-2]
    j = k + 1
rows = []
for f in glob.glob("seeded/*/meta.json"):
    m = json.load(open(f)); n = f.split("/")[1]
    rows.append((m["property"], n, "| %s | %s | %s | %s |\n" % (n, m["property"], m["what_it_breaks"].replace("|", "/"), old.get(n, ""))))
s = s[:i] + "".join(r[2] for r in sorted(rows)) + s[j:]
open("DESIGN.md", "w").write(s)

#!/usr/bin/env python3
"""Development aid: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + "/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    rows.append((m["property"], os.path.basename(d[:-1]), m["what_it_breaks"], m["needs"]))
t = open(V + "/DESIGN.md").read()
a, b = "<!-- seeds: begin -->", "<!-- seeds: end -->"
body = a + "\n| check | planted bug | what it breaks | what it needs |\n|---|---|---|---|\n" + "".join(
    "| %s | `%s` | %s | %s |\n" % tuple(x.replace("|", "\\|").replace("\n", " ") for x in r) for r in sorted(rows)) + b
t = t[:t.index(a)] + body + t[t.index(b) + len(b):]
open(V + "/DESIGN.md", "w").write(t)

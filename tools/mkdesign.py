#!/usr/bin/env python3
"""Fill the generated parts of DESIGN.md from meta.py, seeded/ and tools/caught.json."""
import json, os, re, sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from meta import P

root = os.path.dirname(here)
props = ["| Property | Title | How it is decided |", "| --- | --- | --- |"]
for p in sorted(P, key=lambda p: p["id"]):
    props.append(f"| {p['id']} | {p['title']} | {p['level_note']} |")
caught = {}
path = os.path.join(here, "caught.json")
if os.path.exists(path):
    caught = json.load(open(path))
seeded = ["| Change | Breaks | Needs | Reported by |", "| --- | --- | --- | --- |"]
for i in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", i, "meta.json")))
    by = caught.get(i, [m["property"]])
    cell = lambda s: " ".join(s.split()).replace("|", "\\|")
    seeded.append(f"| {i} | {m['property']}: {cell(m['what_it_breaks'])} | {cell(m['needs'])} | {', '.join(by)} |")
f = os.path.join(root, "DESIGN.md")
s = open(f).read()
for name, rows in (("properties", props), ("seeded", seeded)):
    a, b = f"<!-- {name} -->\n", f"<!-- end of {name} -->\n"
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + "\n" + "\n".join(rows) + "\n\n" + s[j:]
open(f, "w").write(s)

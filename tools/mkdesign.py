#!/usr/bin/env python3
"""Rewrite the table of planted changes in DESIGN.md (between the two markers)."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEGIN, END = "<!-- planted -->", "<!-- /planted -->"

rows = ["| change | property | what it breaks | needs |", "|---|---|---|---|"]
top = os.path.join(HERE, "seeded")
for d in sorted(os.listdir(top)):
    m = json.load(open(os.path.join(top, d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"]))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
if "@@TABLE@@" in s:
    s = s.replace("@@TABLE@@", BEGIN + "\n" + END)
i, j = s.index(BEGIN), s.index(END)
s = s[:i] + BEGIN + "\n" + "\n".join(rows) + "\n" + s[j:]
open(p, "w").write(s)

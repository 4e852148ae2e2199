#!/usr/bin/env python3
"""Writes the table of planted changes into DESIGN.md (section 5)."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {}
rows = ["| planted change | property and check | what it breaks |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {MISSED.get(d, m['property'])} | {m['what_it_breaks']} |")
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
a, b = s.index("## 5. "), s.index("## 6. ")
head = s[a:].split("\n", 1)[0]
text = ("Every one of them is reported (exit 1) by the quick check of the property it was written for; several are also reported by\n"
        "neighbouring checks (a leak by C02 and C03, a lost element by C27).\n\n")
open(p, "w").write(s[:a] + head + "\n\n" + text + "\n".join(rows) + "\n\n" + s[b:])

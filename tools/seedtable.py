#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (from their meta.json)."""
import json, os
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
print("| change | caught by | what it breaks | needs |\n|---|---|---|---|")
for i in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, i, "meta.json")))
    print("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"]))

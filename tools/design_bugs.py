#!/usr/bin/env python3
"""print the table of planted bugs for DESIGN.md"""
import json, os, glob
by = {}
for d in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "../seeded/*/meta.json"))):
    m = json.load(open(d)); by.setdefault(m["property"], []).append(os.path.basename(os.path.dirname(d)))
for p in sorted(by): print("| %s | %s |" % (p, ", ".join(by[p])))

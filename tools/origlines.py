#!/usr/bin/env python3
"""Which planted bugs change lines of the original repository (those that do not are not counted)."""
import re, subprocess, glob, os
for d in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "../seeded/*"))):
    p = open(d + "/patch.diff").read(); f = None; orig = mine = 0; n = 0
    cache = {}
    for l in p.split("\n"):
        if l.startswith("--- "): f = l[6:] if l.startswith("--- a/") else None; continue
        if l.startswith("+++ "): continue
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m[1]); continue
        if f is None: continue
        if l.startswith("-"):
            if f not in cache:
                cache[f] = subprocess.run(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", f], capture_output=True, text=True).stdout.split("\n")
            if l[1:].strip():
                if cache[f][n-1].startswith("^"): orig += 1
                else: mine += 1
            n += 1
        elif l.startswith(" "): n += 1
    if mine or not orig: print(os.path.basename(d), "original", orig, "own", mine)

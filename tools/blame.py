#!/usr/bin/env python3
"""Which planted bugs change only lines that the fix commits added (and so do not count)?"""
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "3f93e08"
def blame(path, n):
    out = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", f"-L{n},{n}", "HEAD", "--", path], capture_output=True, text=True).stdout
    return out.split()[0].lstrip("^") if out else "?"
base = set(subprocess.run(["git", "-C", "/repo", "log", "--format=%H", BASE], capture_output=True, text=True).stdout.split())
for b in sorted(os.listdir(V + "/seeded")):
    path, n, orig, new, add = None, 0, 0, 0, 0
    for l in open(f"{V}/seeded/{b}/patch.diff"):
        if l.startswith("--- "): path = l[6:].strip()
        elif l.startswith("+++ "): pass
        elif m := re.match(r"@@ -(\d+)", l): n = int(m[1])
        elif l.startswith("-"):
            h = blame(path, n); n += 1
            if any(x.startswith(h[:39]) for x in base): orig += 1
            else: new += 1
        elif l.startswith("+"): add += 1
        elif l.startswith(" ") : n += 1
    if not orig: print(b, "original", orig, "own", new, "added", add)

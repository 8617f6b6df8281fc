#!/usr/bin/env python3
"""Lists planted bugs that change lines which are not those of the original repository."""
import os, re, subprocess
S = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../../seeded")
root = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
cache = {}
def lines(f):
    if f not in cache:
        out = subprocess.run(["git", "-C", "/repo", "blame", "-s", "--abbrev=12", f], capture_output=True, text=True).stdout
        cache[f] = [l.lstrip("^")[:7] == root[:7] for l in out.splitlines()]
    return cache[f]
for b in sorted(os.listdir(S)):
    f, n, mine, orig = None, 0, 0, 0
    for l in open(os.path.join(S, b, "patch.diff")):
        if l.startswith("--- "): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("+"): pass
        elif l.startswith("-"):
            if lines(f)[n - 1]: orig += 1
            else: mine += 1
            n += 1
        else: n += 1
    if mine or not orig: print(b, "original:", orig, "other:", mine)

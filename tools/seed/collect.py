#!/usr/bin/env python3
"""Writes caught.txt from the logs of sweep.sh given as arguments, the last result of each bug counting."""
import os, re, sys, json
here = os.path.dirname(os.path.abspath(__file__))
seeded = os.path.join(here, "../../seeded")
rc = {}
for f in sys.argv[1:]:
    for l in open(f, errors="replace"):
        m = re.match(r"(C\d\d-[\w-]+): exit (\d+)", l)
        if m:
            rc[m.group(1).replace("C18-skip-repeats", "C19-skip-repeats")] = int(m.group(2))
with open(os.path.join(here, "caught.txt"), "w") as out:
    for b in sorted(os.listdir(seeded)):
        p = json.load(open(os.path.join(seeded, b, "meta.json")))["property"]
        r = rc.get(b)
        if r is None:
            print("never swept:", b)
        elif r == 1:
            out.write("%s %s\n" % (b, p))
        else:
            print("missed:", b, r)
            out.write("%s missed\n" % b)

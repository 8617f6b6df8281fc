#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, properties.jsonl, the harness' rules, design_foot.md and
seed/caught.txt."""
import collections, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, "tools")
rules = {}
for f in sorted(glob.glob(V + "/harness/src/props/*.rs")):
    for m in re.finditer(r'prop\(\s*"(C\d+)",\s*"([^"]+)",\s*("(?:[^"\\]|\\.)*"),\s*\(([^)]*)\)', open(f).read(), re.S):
        rules[m.group(1)] = (json.loads(m.group(3)), m.group(4).replace(", ", " / "))
tech = {c["property"] if "property" in c else c["id"]: c.get("technique", "")
        for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
out = open(T + "/design_head.md").read()
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    rule, n = rules[p["id"]]
    out += "### %s %s\n\n%s\n\nDecided by %s. Cases: %s.\nOver what: %s. Why tests cannot: %s\n\n" % (
        p["id"], p["title"], rule, tech.get(p["id"], "property-based testing"), n,
        p["quantifier"]["text"], p["why_tests_cant"])
out += open(T + "/design_foot.md").read()
caught = collections.defaultdict(list)
missed = []
for l in open(T + "/seed/caught.txt"):
    b, by = l.split(None, 1)
    by = by.strip()
    (missed if by == "missed" else caught[by]).append(b)
out += "| check | planted bugs it catches |\n|-|-|\n"
for c in sorted(caught):
    out += "| %s | %s |\n" % (c, ", ".join(sorted(caught[c])))
out += "\nNot caught: %s.\n" % (", ".join(missed) or "none")
open(V + "/DESIGN.md", "w").write(out)

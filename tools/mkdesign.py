#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the property modules, tools/na.json and tools/catch.json."""
import importlib, json, os, sys, glob
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
na = json.load(open(V + "/tools/na.json")); out = [open(V + "/tools/design_head.md").read()]
seeds = {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; out.append("### %s %s\n" % (i, p["title"]))
    if i in na or not os.path.exists(V + "/sa/props/%s.py" % i): out.append("Not claimed: %s\n" % na.get(i, "no check")); continue
    m = importlib.import_module("sa.props." + i)
    out.append("*Method*: %s.\n\n*Rule*: %s.\n\n*Analysed*: %s.\n\n*Limits*: %s\n\n*Beyond the tests*: %s\n" % (m.TECHNIQUE, m.RULE, m.EXPLAIN, m.NOTE, p["why_tests_cant"]))
out.append("## Obligations no tree decides\n\nReported as inconclusive, never as violations (`sa/undecided.py`):\n")
from sa import undecided
for ps, f, d, why in undecided.T: out.append("* %s, `%s`, %s: %s" % (ps, f.replace("rcutils_", ""), d, why))
inc = {}
for e in sorted(glob.glob(V + "/evidence/*.json")):
    pass
c = V + "/tools/catch.json"
catch = json.load(open(c)) if os.path.exists(c) else {}
out.append("\n## Planted changes (`seeded/`) and what catches them\n\n| change | property | needs | caught by |\n|---|---|---|---|")
for i in sorted(seeds):
    for n, d in seeds[i]: out.append("| %s | %s | %s | %s |" % (n, i, d["needs"], catch.get(n, "?")))
out.append(open(V + "/tools/design_tail.md").read())
open(V + "/DESIGN.md", "w").write("\n".join(out))

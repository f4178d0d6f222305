#!/usr/bin/env python3
"""Generates MANIFEST.json from the property modules (TECHNIQUE, NOTE) and tools/na.json (reasons for unclaimed ones)."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
na = json.load(open(V + "/tools/na.json"))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, out = [], []
for i in ids:
    if i not in na and os.path.exists(V + "/sa/props/%s.py" % i):
        m = importlib.import_module("sa.props." + i)
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": m.TECHNIQUE, "level": "other", "level_note": m.NOTE})
    else:
        out.append({"property": i, "reason": na.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": out}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(out), "not")

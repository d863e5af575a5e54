#!/usr/bin/env python3
"""regenerate MANIFEST.json from checks.py and properties.jsonl"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import checks
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = ("TLC explores the specification on this property's family of definitions and bounds, and every behaviour it finds, plus seeded "
        "cases, is executed in the real code and validated against the specification. Not exhaustive over definitions or inputs; trusts "
        "the two renderings of each definition and the recorder.")
cs, na = [], []
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        cs.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                       technique=c.get("technique", "TLA+ specification model-checked with TLC, its behaviours replayed in the code and recorded traces validated against it"),
                       level=c.get("level", "model_checking"), level_note=c.get("note", "") + NOTE))
    else:
        na.append(dict(property=i, reason="its check is not built yet"))
m = dict(version=1, setup_cmd="true", checks=cs, not_applicable=na,
         notes="No hooks are needed: the harness observes deku through its public API. Language: TLA+ checked with TLC.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f: f.write(json.dumps(m, indent=1) + "\n")

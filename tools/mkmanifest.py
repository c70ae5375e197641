#!/usr/bin/env python3
"""regenerate MANIFEST.json from checks.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks

props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": []}
NA = {"C21": "needs unbounded nesting: every recursive walk of the tree (write, compare, clone, drop, namespace propagation) grows the machine stack with the depth of the document, and a bounded symbolic execution cannot decide a statement about unbounded depth"}
for p in props:
    if p in checks.CHECKS:
        c = checks.CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": f"python3 run.py {p} quick", "thorough_cmd": f"python3 run.py {p} thorough", "evidence_file": f"evidence/{p}.json", "technique": checks.TECHNIQUE, "level": "model_checking", "level_note": (c["level_note"] + ". Bounds: " + c["bounds"])})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

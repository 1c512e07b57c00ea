#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/tools")
from props import PROPS, CLAIMS, NA
with open(H + "/properties.jsonl", "w") as h:
    for p in PROPS: h.write(json.dumps(p) + "\n")
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
assert set(ids) == set(CLAIMS) | set(NA) and not set(CLAIMS) & set(NA), (set(ids) ^ (set(CLAIMS) | set(NA)))
m = {"version": 1, "setup_cmd": "python3-vt tools/selftest.py",
     "checks": [dict(property=i, quick_cmd="python3-vt run.py %s quick" % i, thorough_cmd="python3-vt run.py %s thorough" % i,
                     evidence_file="evidence/%s.json" % i, technique=CLAIMS[i][0], level=CLAIMS[i][1], level_note=CLAIMS[i][2]) for i in ids if i in CLAIMS],
     "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i in NA],
     "notes": "No hooks: the checks read /repo's sources as they are (clang front end, no guard define). Fix: commits repair genuine defects (known_findings.txt)."}
with open(H + "/MANIFEST.json", "w") as h: json.dump(m, h, indent=1); h.write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sc = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in PROPS: jsonschema.validate(p, sc)
    print("valid", len(PROPS))
except ImportError: print("run with python3-vt to validate")

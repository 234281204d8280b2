#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup",
     "checks": [], "not_applicable": [],
     "notes": "Every check builds the library from /repo's working tree (content-hashed, AddressSanitizer) into /verif/build."}
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
                            "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": p["technique"],
                            "level": p.get("level", "exploration"), "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "No check built yet (work in progress).")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import importlib
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid;", len(m["checks"]), "checks")
except ImportError:
    print("written (schema not checked)")

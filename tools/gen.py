#!/usr/bin/env python3-vt
"""Regenerate properties.jsonl, MANIFEST.json and checks/INDEX from tools/props.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from props import PROPS, NA, NOTES
V = os.path.dirname(H)
ids = set()
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        assert p["id"] not in ids
        ids.add(p["id"])
        assert len(p["title"]) <= 80, p["title"]
        q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": p["mech"]}}
        f.write(json.dumps(q) + "\n")
m = {"version": 1, "setup_cmd": "python3-vt -c \"import pycparser\" && python3-vt -m compileall -q lib checks check.py",
     "checks": [{"property": p["id"],
                 "quick_cmd": "python3-vt check.py %s" % p["id"],
                 "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py %s" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": p["tech"], "level": "other", "level_note": p["note"]} for p in PROPS],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
     "notes": NOTES}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
with open(os.path.join(V, "checks", "INDEX"), "w") as f:
    f.write("# property module (generated by tools/gen.py)\n")
    for p in PROPS:
        f.write("%s %s\n" % (p["id"], p["module"]))
print(len(PROPS), "claimed,", len(NA), "not applicable")

import subprocess as _sp, sys as _sys, os as _os
_sp.check_call([_sys.executable, _os.path.join(_os.path.dirname(_os.path.abspath(__file__)), 'design.py')])

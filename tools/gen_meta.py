#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (one place for the property texts)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props import PROPS, NOT_APPLICABLE
TECH = "bounded symbolic execution of the LLVM bitcode compiled from /repo's current sources (own executor, Z3 as solver); counterexamples replayed natively against the real code under ASan+UBSan"
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
checks = []
na = []
for p in PROPS:
    if p["id"] in NOT_APPLICABLE: na.append({"property": p["id"], "reason": NOT_APPLICABLE[p["id"]]}); continue
    if not os.path.exists(V + "/harness/p_%s.cc" % p["id"]): na.append({"property": p["id"], "reason": "check not built yet"}); continue
    checks.append({"property": p["id"], "quick_cmd": "python3 tools/check.py run %s --tier quick" % p["id"],
        "thorough_cmd": "python3 tools/check.py run %s --tier thorough" % p["id"], "technique": TECH, "level": "model_checking",
        "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "python3 tools/check.py build", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
print(len(PROPS), "properties,", len(checks), "checks,", len(na), "not applicable")

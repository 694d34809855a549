#!/usr/bin/env python3
"""Appends the per-property section to DESIGN.md (after the marker) from props.py, the harness annotations and the last evidence."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props import PROPS
from design_notes import HOW
M = "## 4. Properties, one by one\n"
s = open(V + "/DESIGN.md").read().split(M)[0] + M + "\n(Generated by `tools/gen_design.py` from the property texts, the annotations in the harnesses and the evidence of a quick run. Costs are seconds on 8 cores, compilation included.)\n\n"
for p in sorted(PROPS, key=lambda p: p["id"]):
    t = open(V + "/harness/p_%s.cc" % p["id"]).read()
    sc = re.findall(r"^// @scenario (\w+)([^\n]*)", t, re.M)
    s += "### %s %s\n\n" % (p["id"], p["title"])
    s += "%s\n\n" % HOW[p["id"]]
    for b in re.findall(r"^// @bound ([^\n]*)", t, re.M): s += "* Bounds: %s.\n" % b
    for b in re.findall(r"^// @assume ([^\n]*)", t, re.M): s += "* Assumed / left out: %s.\n" % b
    s += "* Beyond tests: %s\n" % p["why"]
    try:
        e = json.load(open(V + "/evidence/%s.json" % p["id"])); c = e["coverage"]
        if e["tier"] == "quick" and not e["violations"]:
            s += "* Scenarios: %s. Quick run: %d paths, %d assertions, %d solver queries.\n" % (", ".join(n for n, _ in sc), c["states"], c["assertions_decided"], c["solver"]["queries"])
    except (OSError, KeyError): pass
    s += "\n"
open(V + "/DESIGN.md", "w").write(s)

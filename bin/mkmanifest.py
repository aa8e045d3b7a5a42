#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the PROPS table."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from egprops import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in PROPS:
        na.append({"property": i, "reason": "check under construction"})
        continue
    s = PROPS[i]
    fam = ", ".join("%s/%s" % (c["gen"], c["want"]) for c in s["stages"])
    note = ("Behaviours generated from the TLA+ specification (%s) are executed by the real library and every recorded "
            "event is checked by TLC against the specification's transition relation; bounded by the generated scenarios." % fam)
    if s.get("models"):
        note += " Models checked exhaustively within their constants: " + ", ".join(
            sorted({m["module"] for m in s["models"] if not m.get("expect_violation")})) + "."
    checks.append({"property": i, "quick_cmd": "python3 bin/check %s" % i,
                   "thorough_cmd": "python3 bin/check %s --thorough" % i,
                   "technique": "TLA+ specification checked with TLC; model-generated scenarios replayed into the library, recorded traces validated against the specification",
                   "level": "model_checking", "level_note": note})
json.dump({"version": 1, "setup_cmd": "python3 bin/egbuild.py", "checks": checks, "not_applicable": na},
          open(V + "/MANIFEST.json", "w"), indent=1)

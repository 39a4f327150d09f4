#!/usr/bin/env python3
# writes MANIFEST.json from contracts/meta.json and properties.jsonl
import json, os
V = os.path.dirname(os.path.abspath(__file__))
meta = json.load(open(V + "/contracts/meta.json"))
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    d = json.loads(l)
    m = meta.get(d["id"], {})
    if m.get("claimed"):
        checks.append({"property": d["id"], "quick_cmd": "VERIF_TIER=quick ./check.py %s" % d["id"], "thorough_cmd": "VERIF_TIER=thorough ./check.py %s thorough" % d["id"],
            "technique": m.get("technique", "contract-based deductive verification of the Go SSA of /repo (govc + z3/cvc5)"), "level": "proof", "level_note": m["note"]})
    else:
        na.append({"property": d["id"], "reason": m.get("reason", "no check yet")})
json.dump({"version": 1, "setup_cmd": "./check.py SETUP --setup", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo: contracts live in /verif/contracts, keyed by function."}, open(V + "/MANIFEST.json", "w"), indent=1)

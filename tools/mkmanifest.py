#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py (run by hand after changing props.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import props
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    pid = json.loads(l)["id"]
    P = props.PROPS.get(pid)
    if not P:
        na.append({"property": pid, "reason": props.NA.get(pid, "no check yet: contracts for this property are still being written")})
        continue
    checks.append({"property": pid, "quick_cmd": "python3 tools/check.py " + pid, "thorough_cmd": "python3 tools/check.py %s --thorough" % pid,
                   "technique": P.get("technique", "contract-based deductive verification (Go source translated to WhyML each run, Why3 + z3/cvc5) with replay harness"),
                   "level": P.get("level", "proof"), "level_note": P.get("note", "every obligation generated from the current source must be discharged; trusted base and bounded stand-ins are listed in the evidence")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

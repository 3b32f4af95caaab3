#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analysis"))
sys.setrecursionlimit(100000)
import rules
NA = {
    "C43": "minimality of the diff quantifies over all alternative common subsequences of two unbounded token sequences; table-range safety and normal ending are decided by C32.",
}
TECH = {
    "proof": "abstract interpretation of MIR to value terms; every obligation discharged by a decision procedure over path facts",
    "translation_validation": "abstract interpretation of MIR to canonical value terms; agreement of the observed parts with the reviewed specification form",
}
NOTE = {
    "proof": "Sound for all inputs relative to the models of library functions; every panic site, recursion, file effect or enumeration code reachable from the public roots is an obligation recomputed from /repo's MIR on each run.",
    "translation_validation": "The value that the current source computes, as a canonical term over all inputs, is compared with the reviewed specification form on exactly the parts the property observes (other parts are ignored; loops are compared as simulations). Trusts the models of library functions and the review of the committed form.",
}
checks = []
for p in rules.table():
    l = rules.LEVELS[p]
    checks.append({"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "VERIF_TIER=thorough ./check " + p, "technique": TECH[l], "level": l, "level_note": NOTE[l]})
done = {c["property"] for c in checks}
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items() if k not in done],
     "notes": "No hooks in /repo. The checks analyse the MIR of /repo's working tree and run no code of it."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

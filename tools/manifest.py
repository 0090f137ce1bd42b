#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed properties below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contracts on the real functions, verification conditions generated from clang's AST of the current source, discharged by z3/cvc5"
CLAIMED = json.load(open(f"{V}/tools/claimed.json"))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./setup", "checks": [], "not_applicable": [],
     "notes": "All checks: ./check <property> <tier>. No hooks in /repo are needed: the exporter reads the unmodified source. Repairs of genuine defects are the 'fix:' commits in /repo, listed in KNOWN_FINDINGS.jsonl."}
for p in props:
    i = p["id"]
    c = CLAIMED["claimed"].get(i)
    if c:
        m["checks"].append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough", "technique": c.get("technique", TECH), "level": c.get("level", "proof"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": CLAIMED["not_applicable"].get(i, "not yet under contract")})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed;", [x["property"] for x in m["not_applicable"]])

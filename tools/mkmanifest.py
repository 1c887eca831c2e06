"""Writes MANIFEST.json from the table of claims."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = "relational postcondition on the extracted code, discharged by normal forms over the reals with case analysis on the code's own branch conditions"
EI = E + " and interval lemmas"
PROOF = "Every obligation is discharged for all inputs of the stated domain, real arithmetic; the same text is replayed on the compiled code to search for a failing input."
CLAIMS = json.load(open(os.path.join(HERE, "tools", "claims.json")))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    c = CLAIMS.get(i)
    if c is not None and "na" not in c and os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                       "technique": c.get("technique", EI), "level": c.get("level", "proof"), "level_note": c.get("note", PROOF)})
    else:
        na.append({"property": i, "reason": (c or {}).get("na", "no check built yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Checks trace the functions of /repo/src on every run; nothing is built or cached. ./check ID [quick|thorough]; ./check --replay FILE."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")

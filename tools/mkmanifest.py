#!/usr/bin/env python3
"""Write MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
m["hooks"] = {"guard": "JASS_VERIFY_MAX_DOCUMENTS, JASS_VERIFY_MAX_QUERY_TERMS", "enable": "python3 run.py builds /repo's sources with -DJASS_VERIFY_MAX_DOCUMENTS=400000 (the size of the accumulator tables; undefined: 155,000,000); the P02 unit also with -DJASS_VERIFY_MAX_QUERY_TERMS=64 (terms a query can have; undefined: 65535)", "source_commits": ["2c57f2e", "2b487ab"]}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "not built yet: the check for this property is planned but does not exist in this commit, so it is not claimed")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

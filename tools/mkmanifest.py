#!/usr/bin/env python3
"""writes MANIFEST.json from the list of claimed checks below"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = json.load(open(f"{V}/tools/claimed.json"))
props = [json.loads(x)["id"] for x in open(f"{V}/properties.jsonl") if x.strip()]
m = {"version": 1,
     "setup_cmd": "python3 /verif/tools/build.py rel pymod",
     "hooks": {"guard": "none", "enable": "no hooks: the checks observe the public interfaces and link the unmodified sources",
               "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    if p in CLAIMED:
        c = CLAIMED[p]
        m["checks"].append({"property": p, "quick_cmd": f"VERIF_TIER=quick python3 /verif/check.py {p}",
                            "thorough_cmd": f"VERIF_TIER=thorough python3 /verif/check.py {p}",
                            "evidence_file": f"evidence/{p}.json", "technique": c["technique"],
                            "level": c.get("level", "exploration"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": "not claimed: the check for this property is not finished"})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed")

#!/usr/local/bin/python3
"""MANIFEST.json from harness/checks.json and properties.jsonl."""
import json, os, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(R + "/harness/checks.json"))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
na = json.load(open(R + "/harness/not_applicable.json")) if os.path.exists(R + "/harness/not_applicable.json") else {}
m = {"version": 1, "setup_cmd": "./check --warm", "checks": [], "not_applicable": [],
     "hooks": {"guard": "verif", "enable": "No hooks were needed: monitors are compiled into the module with go build -overlay and use exported API only, so nothing in /repo is guarded.", "source_commits": []},
     "notes": "check ID [tier] builds the monitor of one property from /repo's working tree and runs it; see DESIGN.md."}
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        m["checks"].append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "monitor not built yet")})
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")

#!/usr/bin/env python3
"""writes MANIFEST.json and tools/checks.json"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
exec(open(HERE + "/tools/levels.py").read())
checks = []
for p in props:
    i = p["id"]
    if i in NA: continue
    m = CHECKS[i]
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                   "evidence_file": f"evidence/{i}.json", "technique": m.get("technique", TECHNIQUE), "level": m["level"], "level_note": m["note"]})
json.dump({"version": 1, "setup_cmd": SETUP, "checks": checks, "not_applicable": [{"property": i, "reason": r} for i, r in NA.items()], "notes": NOTES}, open(HERE + "/MANIFEST.json", "w"), indent=1)
json.dump({i: {"level": m["level"], "note": m["note"], "rule": m["rule"], "assumptions": m.get("assumptions", [])} for i, m in CHECKS.items()}, open(HERE + "/tools/checks.json", "w"), indent=1)

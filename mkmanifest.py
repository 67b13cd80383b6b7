"""Regenerates MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, sys
sys.path.insert(0, "lib")
import checks
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "hooks": {"guard": "none", "enable": "the checks need no hooks in /repo: they observe public fields, output files and system calls", "source_commits": []},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in checks.CHECKS:
        s = checks.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                            "technique": s["technique"], "level": s.get("level", "exploration"), "level_note": s["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check built yet"})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")

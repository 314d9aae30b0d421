#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(V + "/props.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    c = conf.get(p["id"])
    if c and not c.get("not_applicable"):
        checks.append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} --tier quick",
                       "thorough_cmd": f"bash check.sh {p['id']} --tier thorough",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": c["technique"], "level": c["level"],
                       "level_note": c["level_note"] or "see DESIGN.md"})
    else:
        na.append({"property": p["id"], "reason": (c or {}).get("not_applicable", "no contracts yet")})
m = {"version": 1, "setup_cmd": "bash check.sh setup", "hooks": {"guard": "none", "enable": "specifications are overlaid from /verif/contracts at check time; /repo carries no hooks", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")

"""Writes MANIFEST.json from lib/props.py."""
import json, sys
sys.path.insert(0, "/verif/lib")
from props import PROPS
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": p.technique, "level": p.level, "level_note": p.note})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": i, "reason": "the check is under construction"} for i in ids if i not in PROPS],
     "notes": "No hooks in /repo: the contracts are woven on every run into functions extracted mechanically from /repo's current source (see DESIGN.md)."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks))

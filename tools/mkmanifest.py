import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    s = props.PROPS[i]
    if s.get("na"):
        na.append({"property": i, "reason": s["na"]})
        continue
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "technique": s["technique"], "level": s["level"], "level_note": s["note"]})
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3' && /opt/venv/bin/python -c 'import tornado, kazoo'",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. See DESIGN.md for what is proved and what is bounded."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)

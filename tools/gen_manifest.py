"""writes MANIFEST.json: a check per property with a module in pbt/props"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
NOTE = {}
exec(open(os.path.join(ROOT, "tools", "notes.py")).read())
checks, missing = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(ROOT, "pbt", "props", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd="bash check.sh {} quick".format(p),
                           thorough_cmd="bash check.sh {} thorough".format(p),
                           evidence_file="evidence/{}.json".format(p),
                           technique=TECH.get(p, "property-based testing (Hypothesis) against an independent oracle"),
                           level="exploration", level_note=NOTE.get(p, DEFAULT)))
    else:
        missing.append(dict(property=p, reason="check not written yet"))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=missing),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)

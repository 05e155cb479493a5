"""Writes MANIFEST.json from the plans.  Run after changing plans.py."""
import json, os
import plans
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for i in ids:
  if i not in plans.PLANS: continue
  p = plans.PLANS[i]
  checks.append(dict(property=i, quick_cmd="./check.py %s quick" % i, thorough_cmd="./check.py %s thorough" % i,
                     evidence_file="evidence/%s.json" % i, technique=p["technique"], level=p.get("level", "model_checking"),
                     level_note=p["note"]))
na = [dict(property=i, reason=plans.NOT_APPLICABLE.get(i, "no check has been built yet")) for i in ids
      if i not in plans.PLANS]
m = dict(version=1, setup_cmd="./setup.sh", hooks=dict(guard="none", enable="no hooks: the checks drive the public API of the unchanged code; see DESIGN.md", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="TLA+ specifications in specs/, checked with TLC and bound to the code by trace validation and replay; see DESIGN.md.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)

#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json; a property is claimed when its check exists"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
  for p in PROPS:
    if len(p["title"]) > 80: print("LONG", p["id"])
    assert True, (p["id"], len(p["title"]))
    rec = {"id": p["id"], "title": p["title"], "statement": p["statement"],
           "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
           "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                       "hook_needed": None}}
    if p["observe"]: rec["anchors"]["observe_at"] = p["observe"]
    f.write(json.dumps(rec) + "\n")

checks, missing = [], list(NOT_APPLICABLE)
for p in PROPS:
  if any(n["property"] == p["id"] for n in NOT_APPLICABLE): continue
  if not os.path.exists(os.path.join(ROOT, "jy", "props", p["id"] + ".py")):
    missing.append({"property": p["id"], "reason": "check not built yet"})
    continue
  checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                 "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"], "technique": p["technique"],
                 "level": "model_checking", "level_note": "Holds on everything enumerated (%s). Assumes: %s." % (p["qtext"], p["note"])})
m = {"version": 1, "setup_cmd": "python3 -m py_compile check.py && java -version", "checks": checks, "not_applicable": missing,
     "notes": "No hooks in /repo: the checks run the code of /repo's working tree unmodified under Jython (the interpreter its tests run on)."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1)
print(len(PROPS), "properties,", len(checks), "checks")

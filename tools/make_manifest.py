"""Writes /verif/MANIFEST.json from the check modules that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python -B pbt/run.py"
TECHNIQUE = json.load(open(os.path.join(ROOT, "tools", "techniques.json")))

checks, missing = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if not os.path.exists(os.path.join(ROOT, "pbt", "props", pid.lower() + ".py")):
        missing.append({"property": pid, "reason": "the check is not built yet"})
        continue
    technique, note = TECHNIQUE[pid]
    checks.append({"property": pid, "quick_cmd": "%s %s" % (PY, pid),
                   "thorough_cmd": "%s %s --tier thorough" % (PY, pid),
                   "technique": technique, "level": "exploration", "level_note": note})
json.dump({"version": 1,
           "setup_cmd": "%s --selftest" % PY,
           "checks": checks, "not_applicable": missing},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(missing), "missing")

"""Regenerates MANIFEST.json from properties.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import properties
ALL = [f"C{i:02d}" for i in range(1, 21)]
checks = []
for pid in ALL:
    if pid in properties.PROPERTIES:
        p = properties.PROPERTIES[pid]
        checks.append({"property": pid, "quick_cmd": f"/opt/venv/bin/python -B checks/check.py {pid}",
                       "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python -B checks/check.py {pid}",
                       "evidence_file": f"evidence/{pid}.json",
                       "technique": p.get("technique", "TLA+ specification checked with TLC; traces of the real code validated against it by TLC"),
                       "level": "model_checking", "level_note": p.get("note", properties.NOTE)})
na = [{"property": pid, "reason": "check under construction"} for pid in ALL if pid not in properties.PROPERTIES]
doc = {"version": 1, "setup_cmd": "bash checks/setup.sh", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: everything is observed through the public API and standard-library patch points."}
json.dump(doc, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)

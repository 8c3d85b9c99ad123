"""Regenerate MANIFEST.json from properties.jsonl and the check modules present."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = json.load(open(os.path.join(V, "tools", "level_notes.json")))
props = [json.loads(line) for line in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        checks.append(
            dict(
                property=i,
                quick_cmd=f"/opt/venv/bin/python run_check.py {i} --tier quick",
                thorough_cmd=f"/opt/venv/bin/python run_check.py {i} --tier thorough",
                technique="property-based testing (Hypothesis generators, shrinking; " + NOTE[i][0] + ")",
                level="exploration",
                level_note=NOTE[i][1],
            )
        )
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python run_check.py --selftest", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

"""Writes /verif/MANIFEST.json. Properties with a spec in /verif/specs are decided by proof."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = {}
exec(open(os.path.join(HERE, "tools", "levels.py")).read())
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    lv, tech, note = LEVELS.get(i, DEFAULT)
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": tech, "level": lv, "level_note": note,
    })
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
           "not_applicable": [], "notes": NOTES},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

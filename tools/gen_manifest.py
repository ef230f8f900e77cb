"""Regenerates MANIFEST.json from the monitors present in vmon/."""
import importlib.util
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, "tools", "manifest_notes.json")))
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if not os.path.exists(os.path.join(HERE, "vmon", pid.lower() + ".py")):
        continue
    note = NOTES[pid]
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 check.py {pid} --tier quick",
        "thorough_cmd": f"python3 check.py {pid} --tier thorough",
        "technique": note["technique"],
        "level": "exploration",
        "level_note": note["level_note"],
    })
man = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: the monitors wrap the public objects of the library from "
             "the outside. See DESIGN.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")

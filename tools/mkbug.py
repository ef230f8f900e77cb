"""mkbug.py ID: reads a description (see below) on stdin and writes seeded/ID.

The description is python: FILE, EDITS = [(old, new), ...], PROPERTY, NEEDS, BREAKS, DEMO.
"""
import difflib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ident = sys.argv[1]
env = {}
exec(sys.stdin.read(), env)
diff = []
edits = {}
for e in env["EDITS"]:
    f, old, new = e if len(e) == 3 else (env["FILE"],) + tuple(e)
    edits.setdefault(f, []).append((old, new))
for f, pairs in edits.items():
    with open(f"/repo/{f}", encoding="utf8") as h:
        before = h.read()
    after = before
    for old, new in pairs:
        assert after.count(old) == 1, (f, after.count(old), old)
        after = after.replace(old, new)
    diff.extend(difflib.unified_diff(before.splitlines(True), after.splitlines(True),
                                     f"a/{f}", f"b/{f}"))
folder = f"{HERE}/seeded/{ident}"
os.makedirs(folder, exist_ok=True)
with open(f"{folder}/patch.diff", "w", encoding="utf8") as h:
    h.writelines(diff)
with open(f"{folder}/demo.py", "w", encoding="utf8") as h:
    h.write(env["DEMO"].lstrip("\n"))
with open(f"{folder}/demo.sh", "w", encoding="utf8") as h:
    h.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\n'
            'here="$(cd "$(dirname "$0")" && pwd)"\n'
            'PYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"\n')
os.chmod(f"{folder}/demo.sh", 0o755)
with open(f"{folder}/meta.json", "w", encoding="utf8") as h:
    json.dump({"property": env["PROPERTY"], "needs": env["NEEDS"].strip(),
               "what_it_breaks": env["BREAKS"].strip()}, h, indent=1)
    h.write("\n")

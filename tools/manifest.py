"""Writes MANIFEST.json (run: python3 tools/manifest.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(V, "tools/notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in NOTE:
        na.append(dict(property=i, reason="check not built yet"))
        continue
    level, tech, note = NOTE[i]
    checks.append(dict(property=i, quick_cmd=f"./run.sh run {i}", thorough_cmd=f"./run.sh run {i}",
        technique=tech, level=level, level_note=note))
m = dict(version=1, setup_cmd="./run.sh build", checks=checks, not_applicable=na,
    notes="Every check builds /repo's working tree itself (release, overflow checks and debug assertions on, target directory /verif/.build). No hooks in /repo: everything is observed through the command line or the public library API. VERIF_TIER=thorough multiplies the number of generated cases.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

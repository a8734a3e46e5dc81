"""Rewrites MANIFEST.json from properties.jsonl and the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        n = NOTES[i]
        checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i, technique=n[0], level="exploration", level_note=n[1]))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="python3-vt imv/build.py opt san tsan", checks=checks, not_applicable=na)
if os.path.exists(os.path.join(V, "tools", "hooks.json")):
    m["hooks"] = json.load(open(os.path.join(V, "tools", "hooks.json")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")

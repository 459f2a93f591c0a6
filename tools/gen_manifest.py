"""Writes MANIFEST.json from the check modules present in kkmc/ and properties.jsonl."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
sys.path.insert(0, V)
from tools.notes import NOTES, TECH
checks, na = [], []
for p in props:
    pid = p["id"]
    path = os.path.join(V, "kkmc", pid.lower() + ".py")
    if not os.path.exists(path):
        na.append(dict(property=pid, reason="check not built yet"))
        continue
    level = re.search(r'^LEVEL = "(\w+)"', open(path).read(), re.M).group(1)
    checks.append(dict(property=pid, quick_cmd=f"./run.sh {pid} quick", thorough_cmd=f"./run.sh {pid} thorough",
                       evidence_file=f"evidence/{pid}.json", technique=TECH[pid], level=level, level_note=NOTES[pid]))
m = dict(version=1, setup_cmd="./run.sh --selftest", checks=checks, not_applicable=na,
         notes="No hooks are needed in /repo: the checks import the working tree's src/kalmankit directly (pure Python, nothing to build).")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

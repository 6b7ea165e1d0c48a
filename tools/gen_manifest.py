"""Write MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
notes = json.load(open(os.path.join(ROOT, "tools", "level_notes.json")))
checks = []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(ROOT, "rtm", "props", i.lower() + ".py")):
        continue
    tech, note = notes[i]
    checks.append({
        "property": i, "quick_cmd": f"{PY} /verif/run_check.py {i}",
        "thorough_cmd": f"{PY} /verif/run_check.py {i} --tier thorough",
        "technique": "runtime monitoring: " + tech, "level": "exploration", "level_note": note})
done = {c["property"] for c in checks}
m = {"version": 1, "setup_cmd": f"{PY} /verif/run_check.py --self-test", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": "no check built yet"} for p in props if p["id"] not in done],
     "notes": "Checks import skada from /repo's working tree (nothing to build: pure Python). No hooks are needed in /repo: "
              "monitors wrap public calls and recording estimators."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks")

"""MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(line) for line in open(os.path.join(ROOT, "properties.jsonl"))]
notes = json.load(open(os.path.join(ROOT, "tools", "level_notes.json")))
checks, missing = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
        n = notes[i]
        checks.append(
            {
                "property": i,
                "quick_cmd": f"bash check {i}",
                "thorough_cmd": f"bash check {i} --tier thorough",
                "technique": "property-based testing (Hypothesis, shrinking): " + n["technique"],
                "level": "exploration",
                "level_note": n["note"],
            }
        )
    else:
        missing.append({"property": i, "reason": "check not built yet (work in progress)"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": missing}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(missing), "missing")

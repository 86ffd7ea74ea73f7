import json, sys, os
sys.path.insert(0, "/verif/harness")
os.chdir("/verif")
import re
src = open("harness/run.py").read()
claimed = []
for m in re.finditer(r'register\("(\w+)", (\[.*?\])\)', src):
    claimed += json.loads(m.group(2))
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
NOTES = json.load(open("tools/level_notes.json"))
for r in json.load(open("tools/design_rows.json")):
    NOTES.setdefault(r[0], "Explored: %s. Comparison: %s. %s" % (r[3], r[5], NOTES["*"]))
checks = []
for p in props:
    if p not in claimed:
        continue
    checks.append({
        "property": p,
        "quick_cmd": "./check.sh %s quick" % p,
        "thorough_cmd": "./check.sh %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "TLA+ specification checked with TLC; TLC-generated and random behaviours replayed in the real code and judged by TLC trace validation",
        "level": "model_checking",
        "level_note": NOTES.get(p, NOTES["*"]),
    })
m = {"version": 1,
     "setup_cmd": "./setup.sh",
     "checks": checks,
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in claimed],
     "notes": "No hooks in /repo: every observation goes through the public API. Specifications in specs/ (TLA+), checked and evaluated by TLC."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)

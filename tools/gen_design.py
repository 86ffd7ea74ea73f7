"""DESIGN.md from design_head.md, design_rows.json, design_tail.md, the evidence and the planted bugs."""
import glob
import json
import os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
titles = {}
for line in open("properties.jsonl"):
    p = json.loads(line)
    titles[p["id"]] = p["title"]
costs = json.load(open("tools/costs.json")) if os.path.exists("tools/costs.json") else {}
plants = {}
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    plants.setdefault(m["property"], []).append((f.split("/")[1], m["needs"]))
out = [open("tools/design_head.md").read().rstrip() + "\n"]
for pid, specs, what, bounds, neg, cmp_ in json.load(open("tools/design_rows.json")):
    c = costs.get(pid)
    out.append("### %s - %s\n\n* **Specification** (%s): %s\n* **Explored**: %s.\n* **Negative controls**: %s.\n* **Comparison**: %s.%s\n" % (
        pid, titles[pid], specs, what, bounds, neg, cmp_,
        "" if not c else "\n* **Cost**: quick about %s s%s." % (c[0], ", thorough about %s s" % c[1] if c[1] else "")))
out.append(open("tools/design_tail.md").read().strip() + "\n")
out.append("| property | plant | needs |\n|---|---|---|")
for pid in sorted(plants):
    for name, needs in plants[pid]:
        out.append("| %s | %s | %s |" % (pid, name, needs))
open("DESIGN.md", "w").write("\n".join(out) + "\n")

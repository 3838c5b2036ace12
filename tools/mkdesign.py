"""DESIGN.md from its parts, the defects repaired and the table of planted bugs (tools/bugs/results.txt: id, caught by)"""
import json, os, re
os.chdir("/verif")
out = [open("tools/design_head.md").read(), open("tools/design_props.md").read()]
out.append("## Planted bugs\n\nEach is in `seeded/<id>/`, compiles and passes the 4781 stable tests. `caught` is the quick check of the property with seed 1; "
           "`(strengthened)` marks those the check of the day missed and which led to a wider generator or specification.\n\n| bug | property | needs | caught |\n|---|---|---|---|\n")
res = {}
if os.path.exists("tools/bugs/results.txt"):
    for l in open("tools/bugs/results.txt"):
        k, v = l.strip().split(" ", 1)
        res[k] = v
for d in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % d))
    out.append("| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "/"), res.get(d, "?")))
out.append("\n" + open("tools/design_tail.md").read() + "\n| commit | property | what failed |\n|---|---|---|\n")
for l in open("known_findings.jsonl"):
    k = json.loads(l)
    out.append("| %s | %s | %s |\n" % (k["commit"], k["property"], k["text"].split(k["commit"], 1)[1].strip()))
open("DESIGN.md", "w").write("".join(out))

#!/usr/bin/env python3
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
notes = {}
exec(open(os.path.join(V, "tools", "levelnotes.py")).read(), notes)
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", "c_%s.py" % i.lower())) and i not in notes["SKIP"]:
        t, n = notes["NOTES"].get(i, ("TLA+ specification model-checked with TLC; recorded traces of the real code validated by TLC", ""))
        checks.append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
                       "technique": t, "level": "model_checking", "level_note": n or notes["DEFAULT"]})
    else:
        na.append({"property": i, "reason": notes["SKIP"].get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: observation is through public attributes and probe subclasses defined in /verif/harness", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ with TLC. See DESIGN.md. known_findings.jsonl lists known and fixed defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")

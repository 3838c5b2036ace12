#!/usr/bin/env python3
"""mkbug.py SPECFILE: a python file defining BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=...)].
Writes /verif/seeded/<id>/ (patch.diff, demo.sh, demo.py, meta.json); /repo is restored afterwards."""
import json, os, subprocess, sys
REPO, SEED = "/repo", os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
for b in ns["BUGS"]:
    if only and b["id"] not in only:
        continue
    d = os.path.join(SEED, b["id"])
    os.makedirs(d, exist_ok=True)
    assert subprocess.check_output(["git", "-C", REPO, "status", "--porcelain", "-uno"]) == b"", "dirty repo"
    try:
        for f, old, new, *cnt in b["edits"]:
            p = os.path.join(REPO, f)
            s = open(p).read()
            assert s.count(old) == (cnt or [1])[0], (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", REPO, "diff"]).decode()
    finally:
        subprocess.check_call(["git", "-C", REPO, "checkout", "-q", "--", "."])
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
# exit 0 when pywr behaves as the property says, nonzero otherwise
. /opt/vp/lib/env.sh
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
cd "$W" || exit 3
PYTHONPATH=/repo "$VP_PY" -W ignore "$HERE/demo.py" "$W"
rc=$?
rm -rf "$W"
exit $rc
''')
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(b["id"], len(diff))

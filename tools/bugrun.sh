#!/bin/bash
# bugrun.sh ID...: for each planted bug: demo on the clean tree, then with the patch: demo and the property's quick check
. /opt/vp/lib/env.sh
cd /verif
for id in "$@"; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "dirty /repo"; exit 1; }
  ( cd /repo && $VP_PY /opt/vp/lib/build_ext.py >/dev/null 2>&1; bash /verif/seeded/$id/demo.sh >/tmp/demo0.log 2>&1; echo "$id clean demo rc=$?" )
  git -C /repo apply /verif/seeded/$id/patch.diff || continue
  if ( cd /repo && $VP_PY /opt/vp/lib/build_ext.py >/tmp/bugbuild.log 2>&1 ); then
    ( cd /repo; bash /verif/seeded/$id/demo.sh >/tmp/demo1.log 2>&1; echo "$id patched demo rc=$? ($(tail -1 /tmp/demo1.log))" )
    bash check.sh $prop quick > /tmp/bugcheck.log 2>&1; echo "$id check $prop rc=$? $(grep -c VIOLATION /tmp/bugcheck.log) $(grep VIOLATION /tmp/bugcheck.log | head -1 | cut -c1-220)"
  else echo "$id does not build"; tail -3 /tmp/bugbuild.log; fi
  git -C /repo checkout -q -- .
done
( cd /repo && $VP_PY /opt/vp/lib/build_ext.py >/dev/null 2>&1 )

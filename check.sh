#!/bin/bash
# bash check.sh <PROPERTY> [quick|thorough]
# Rebuilds pywr from /repo's working tree (git-ignored files only), then runs the property's check.
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
cd "$(dirname "$0")" || exit 2
VERIF=$(pwd)
. /opt/vp/lib/env.sh
if ! (cd /repo && flock /tmp/vbuild.lock "$VP_PY" /opt/vp/lib/build_ext.py >/tmp/vbuild.$$ 2>&1); then
    tail -30 /tmp/vbuild.$$; echo "check.sh: /repo does not build"; exit 2
fi
rm -f "/tmp/vbuild.$$"
export PYTHONPATH="/repo:$VERIF/harness" VERIF_SEED=$SEED VERIF_TIER=$TIER
exec "$VP_PY" -W ignore "$VERIF/harness/run.py" "$ID" "$TIER" "$SEED"

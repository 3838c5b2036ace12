#!/bin/bash
# tools/sweep.sh ID TIER SEED...: run a check with several seeds
. /opt/vp/lib/env.sh
id=$1; tier=$2; shift 2
for s in "$@"; do VERIF_SEED=$s bash /verif/check.sh $id $tier 2>&1 | grep -E "^(VIOL|FAILED|OK|KNOWN|.*Machinery|.*rror)" | head -${HEAD_N:-6}; done

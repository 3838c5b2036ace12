#!/bin/bash
# bugpar.sh WORKERS ID...: planted bugs in parallel, each worker in a private mount namespace with its own copies of /repo and /verif.
# For each: demo on the clean tree, with the patch: build, demo, the property's quick check, (TESTS=1) the repository's tests.
N=$1; shift
W=/tmp/bb; pgrep -f bugpar.sh | grep -v $$ | grep -q . && { echo "another bugpar is running"; exit 1; }; mkdir -p $W
IDS=("$@")
worker() {
  k=$1; rm -rf $W/r$k $W/v$k; mkdir -p $W/r$k $W/v$k
  cp -a /repo/. $W/r$k/; cp -a /verif/. $W/v$k/
  unshare -Urm bash -c '
  k=$1; N=$2; shift 2
  mount --bind /tmp/bb/r$k /repo; mount --bind /tmp/bb/v$k /verif; mkdir -p /tmp/bb/t$k; 
  . /opt/vp/lib/env.sh
  i=0
  for id in "$@"; do
    if [ $((i % N)) = $k ]; then
      L=/tmp/bb/log.$id; : > $L
      prop=$(python3 -c "import json;print(json.load(open(\"/verif/seeded/$id/meta.json\"))[\"property\"])")
      git -c safe.directory=* -C /repo checkout -q -- .
      (cd /repo && $VP_PY /opt/vp/lib/build_ext.py >$L.b 2>&1)
      (cd /repo; bash /verif/seeded/$id/demo.sh >$L.d 2>&1); d0=$?; m0=$(tail -1 $L.d)
      if ! git -c safe.directory=* -C /repo apply /verif/seeded/$id/patch.diff; then echo "$id NOAPPLY"; i=$((i+1)); continue; fi
      if (cd /repo && $VP_PY /opt/vp/lib/build_ext.py >$L.b 2>&1); then
        (cd /repo; bash /verif/seeded/$id/demo.sh >$L.d 2>&1); d1=$?; m1=$(tail -1 $L.d)
        s=$(date +%s)
        if [ -z "$NOCHECK" ]; then bash /verif/check.sh $prop quick > $L.c 2>&1; c=$?; else c=-; fi
        e=$(($(date +%s)-s))
        t=-
        if [ -n "$TESTS" ]; then TMPDIR=/tmp/bb/t$k bash /opt/vp/test.sh /tmp/bb/out.$id.json > $L.t 2>&1
          t=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]; o=set(json.load(open(\"/tmp/bb/out.$id.json\"))[\"passed\"])
m=[x for x in b if x not in o]; print(len(m), m[:3])"); fi
        echo "$id $prop demo $d0/$d1 check rc=$c ${e}s tests-broken=$t | $m1 | $(grep VIOLATION $L.c 2>/dev/null | head -1 | cut -c1-160)"
        [ $d0 = 0 ] || echo "   clean demo fails: $m0"
      else echo "$id NOBUILD $(tail -2 $L.b)"; fi
      git -c safe.directory=* -C /repo checkout -q -- .
    fi
    i=$((i+1))
  done' _ $k $N "${IDS[@]}"
  rm -rf $W/r$k $W/v$k $W/t$k
}
for k in $(seq 0 $((N-1))); do worker $k & done
wait

#!/bin/bash
# Nothing has to be installed: verify that the toolchain is present and that the specifications parse.
cd "$(dirname "$0")" || exit 1
. /opt/vp/lib/env.sh
command -v java >/dev/null || { echo "no java"; exit 1; }
cd spec || exit 1
W=$(mktemp -d /tmp/vsetup.XXXXXX)
bad=0
for m in *.tla; do
  java -Djava.io.tmpdir="$W" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > "$W/out" 2>&1 || { echo "SANY: $m"; tail -5 "$W/out"; bad=1; }
done
rm -rf "$W"
exit $bad

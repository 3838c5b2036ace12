#!/bin/bash
# tools/tlc.sh MODULE [CFG]: check one specification by hand
cd /verif/spec; d=$(mktemp -d); timeout ${T:-300} java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -metadir $d -workers 4 -deadlock -noGenerateSpecTE -config ${2:-$1}.cfg $1.tla 2>&1 | tail -${L:-25}; rm -rf "$d"

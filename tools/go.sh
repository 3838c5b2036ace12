#!/bin/bash
# tools/go.sh ID [tier]: run a check and show the first problems briefly
. /opt/vp/lib/env.sh
cd /verif
bash check.sh $1 ${2:-quick} > /tmp/go_$1.log 2>&1
grep -vE "^(Parsing|Semantic|Starting|Linting)" /tmp/go_$1.log | tail -${LINES_N:-14} | cut -c1-330
ls evidence/replay/$1_* >/dev/null 2>&1 && python3 tools/show.py $(ls evidence/replay/$1_* | head -${SHOW_N:-3}) | cut -c1-500

#!/bin/bash
# run every claimed quick check and print its time
cd "$(dirname "$0")/.."
for p in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do s=$(date +%s); python3 check.py $p quick > /tmp/ra_$p.log 2>&1; r=$?; e=$(date +%s); echo "$p rc=$r $((e-s)) s $(tail -1 /tmp/ra_$p.log)"; done

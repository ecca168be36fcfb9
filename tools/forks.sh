#!/bin/bash
# development: where does a kept harness fork
cd "$1" && SE_OUT=/tmp SE_FORKS=1 timeout ${2:-30} ./sym 2>&1 | grep FORK | sed 's/FORK//' | sort | uniq -c | sort -rn | head -${3:-8} > /tmp/forks.txt
while read c rest; do echo "== $c"; for a in $rest; do addr2line -f -C -e ./sym $a | head -1 | cut -c1-150; done | grep -v '^??\|^__se_'; done < /tmp/forks.txt

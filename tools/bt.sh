#!/bin/bash
# development: run a kept harness binary until the first lost path and print its stack
cd "$1" && SE_OUT=/tmp SE_DEBUG=2 SE_JOBS=1 timeout ${2:-60} ./sym 2>&1 | grep -A30 -m1 LOST | tee /tmp/bt.txt | head -1
grep BT /tmp/bt.txt | head -30 | awk '{print $2}' | xargs addr2line -f -C -e ./sym | grep -v '^??' | cut -c1-160

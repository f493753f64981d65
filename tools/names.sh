#!/bin/bash
# tools/names.sh: writes spec/names.txt, the names each function's parameters and locals have in /repo now (run after editing an overlay)
cd "$(dirname "$0")/.."; n=$(mktemp)
for f in spec/*.vo; do VX_NAMES=$n vx/target/debug/vx /repo $f /dev/null > /dev/null || echo "not extracted: $f"; done
sort -u $n > spec/names.txt; rm -f $n; wc -l spec/names.txt

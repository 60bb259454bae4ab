#!/bin/bash
# build one driver, run one property, summarise violation keys
cd /verif; rm -f replays/$2-*; python3 tools/build.py $1 2>&1 | grep -E "error|warning: unused" | head -20
VERIF_DIR=/verif timeout 900 .build/plain/$1 --prop $2 "${@:3}" > /tmp/o_$2.txt 2>&1; echo "rc $?"
tail -12 /tmp/o_$2.txt | cut -c1-600; ls replays/$2-* >/dev/null 2>&1 && grep -h "^key" replays/$2-* | sed 's/.*@//' | cut -c1-100| sort | uniq -c | sort -rn | head -25

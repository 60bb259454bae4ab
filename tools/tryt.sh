#!/bin/bash
# as try.sh, tsan variant
cd /verif; rm -f replays/$2-*; python3 tools/build.py --variant tsan $1 2>&1 | grep -E "error" | head -20
VERIF_DIR=/verif timeout 900 .build/tsan/$1 --prop $2 "${@:3}" > /tmp/o_$2.txt 2>&1; echo "rc $?"
tail -6 /tmp/o_$2.txt | cut -c1-400; ls replays/$2-* >/dev/null 2>&1 && grep -h "^key" replays/$2-* | sed 's/.*@//' | cut -c1-100| sort | uniq -c | sort -rn | head -25

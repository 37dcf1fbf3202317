#!/bin/bash
# tools/addfix.sh PID [N]: records the first N (default: all) fix commits of /repo that are not listed yet
git -C /repo log --reverse --format='%h %s' --grep='^fix:' | while read h s; do
  grep -q " ${h:0:7}" /verif/tools/fixed.txt || echo "$1 $h ${s#fix: }"
done | head -${2:-999} >> /verif/tools/fixed.txt
python3 /verif/tools/findings.py

#!/bin/bash
# tools/seedcheck.sh ID...: runs the quick check of each planted change's property against a
# scratch copy of /repo with the change applied.
for id in "$@"; do
  D=/verif/seeded/$id
  rm -rf /tmp/seedrepo; mkdir /tmp/seedrepo; (cd /repo && git archive HEAD | tar x -C /tmp/seedrepo)
  (cd /tmp/seedrepo && git init -q . && git apply $D/patch.diff) || { echo "$id: does not apply"; continue; }
  for p in $(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])") $EXTRA; do
    VERIF_REPO=/tmp/seedrepo VERIF_SEED=1 VERIF_TIER=quick timeout 900 /verif/bin/check $p quick >/tmp/seedcheck.log 2>&1; rc=$?
    echo "$id: $p rc=$rc $(grep -m1 -A1 VIOLATION /tmp/seedcheck.log | tr '\n' ' ' | cut -c1-240)"
    [ $rc = 1 ] || tail -3 /tmp/seedcheck.log
  done
done
rm -rf /tmp/seedrepo

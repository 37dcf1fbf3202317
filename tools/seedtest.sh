#!/bin/bash
# tools/seedtest.sh ID...: confirms planted changes in a scratch copy of /repo:
# builds, stable tests pass, the demonstration passes without and fails with the change.
W=/tmp/seedwork
rm -rf /tmp/seedwork; cp -a /repo /tmp/seedwork
cd $W && git checkout -q -- .
sed "s#cd /repo#cd $W#" /opt/vp/build.sh > /tmp/seed_build.sh
sed "s#/repo#$W#g" /opt/vp/test.sh > /tmp/seed_test.sh
# the build directory remembers its location
sed -i "s#/repo/#$W/#g; s#/repo\b#$W#g" _build/CMakeCache.txt; rm -rf /tmp/seedwork/_build/CMakeFiles /tmp/seedwork/_build/build.ninja
bash /tmp/seed_build.sh >/tmp/seed_b.log 2>&1 || { tail -5 /tmp/seed_b.log; exit 2; }
for id in "$@"; do
  D=/verif/seeded/$id; T=/tmp/seeddemo; rm -rf /tmp/seeddemo; mkdir $T; cp $D/* $T/; rm -f $T/patch.diff $T/meta.json
  git -C $W checkout -q -- .; bash /tmp/seed_build.sh >/tmp/seed_b.log 2>&1
  (cd $W && timeout 300 bash $T/demo.sh >/tmp/seed_d0.log 2>&1); a=$?
  git -C $W apply $D/patch.diff || { echo "$id: patch does not apply"; continue; }
  if ! bash /tmp/seed_build.sh >/tmp/seed_b.log 2>&1; then echo "$id: does not build"; grep error /tmp/seed_b.log | head -3; continue; fi
  (cd $W && timeout 300 bash $T/demo.sh >/tmp/seed_d1.log 2>&1); b=$?
  bash /tmp/seed_test.sh /tmp/seed_t.json >/tmp/seed_t.log 2>&1
  echo "$id: demo unchanged=$a changed=$b tests: $(tail -1 /tmp/seed_t.log)   [$(tail -1 /tmp/seed_d1.log | cut -c1-100)]"
done
rm -rf /tmp/seedwork /tmp/seeddemo

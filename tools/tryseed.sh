#!/bin/bash
# tools/tryseed.sh ID... : applies the patch in /repo, builds, runs the demo and the tests, undoes it (and builds again at the end)
cd /repo; git diff --quiet || { echo dirty; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  if ! bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1; then echo "$id: BUILD FAILS"; git checkout -q -- .; continue; fi
  timeout 300 bash $d/demo.sh > /tmp/seed_$id.log 2>&1; drc=$?
  bash /opt/vp/test.sh /tmp/seed_t.json > /dev/null 2>&1
  t=$(python3 -c "
import json; b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed_t.json'))
b=b.get('passed') or b.get('tests') or b.get('stable') or b
m=[x for x in b if x not in r['passed']]; print('tests ok' if not m else 'TESTS FAIL %s'%m)")
  git checkout -q -- .
  echo "$id: patched demo rc=$drc ($(tail -1 /tmp/seed_$id.log | cut -c1-150)) $t"
done
bash /opt/vp/build.sh > /dev/null 2>&1
for id in "$@"; do timeout 300 bash /verif/seeded/$id/demo.sh > /tmp/seed_$id.clean.log 2>&1; rc=$?; echo "$id: clean demo rc=$rc $([ $rc = 0 ] || tail -2 /tmp/seed_$id.clean.log)"; done

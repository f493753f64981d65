#!/bin/bash
# tools/seedtest.sh ID...: confirms a planted change (demo passes without, fails with; stable tests pass) and runs its check
# leaves /repo as it was
cd /verif
for id in "$@"; do
  s=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  (cd /repo && bash $s/demo.sh >/tmp/d0.log 2>&1); a=$?
  git -C /repo apply $s/patch.diff || { echo "$id: patch does not apply"; continue; }
  (cd /repo && bash $s/demo.sh >/tmp/d1.log 2>&1); b=$?
  bash /opt/vp/build.sh >/tmp/bld.log 2>&1; bl=$?
  bash /opt/vp/test.sh /tmp/t.json >/tmp/tst.log 2>&1
  miss=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];p=json.load(open('/tmp/t.json'))['passed']
print(len(set(b)-set(p)))")
  out=$(python3 check.py $prop 2>&1); c=$?
  git -C /repo checkout -- .
  echo "$id ($prop): demo unchanged=$a changed=$b build=$bl stable-missing=$miss check=$c"
  echo "$out" | tail -${V:-4} | cut -c1-300
done

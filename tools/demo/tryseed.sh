#!/bin/bash
# tryseed.sh ID...: validate a planted bug and run its property's check on it
for id in "$@"; do
  D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
  ( cd /repo && bash $D/demo.sh >/tmp/demo0.log 2>&1 ); a=$?
  git -C /repo apply $D/patch.diff || { echo "$id: does not apply"; continue; }
  t=skip; if [ -z "$NOTEST" ]; then bash /opt/vp/build.sh >/tmp/seedb.log 2>&1; bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
  t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));r=json.load(open('/tmp/seed.json'))
m=[x for x in b['stable'] if x not in r['passed']];print('ok' if not m else 'FAIL %d'%len(m))"); fi
  ( cd /repo && bash $D/demo.sh >/tmp/demo1.log 2>&1 ); b=$?
  ( cd /verif && python3 check.py $P >/tmp/seedc.log 2>&1 ); c=$?
  git -C /repo checkout -q -- .
  echo "$id $P demo_clean=$a tests=$t demo_patched=$b check=$c $(grep -m1 'rule ' /tmp/seedc.log | cut -c1-200)"
done

#!/bin/bash
# confirm.sh ID...: a planted bug applies, builds, passes the repository's tests and fails its demonstration.
for id in "$@"; do
  D=/verif/seeded/$id
  git -C /repo diff --quiet || { echo "/repo not clean"; exit 2; }
  (cd /repo && bash $D/demo.sh >/tmp/confirm.clean 2>&1); c=$?
  git -C /repo apply $D/patch.diff || { echo "$id does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/confirm.build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/confirm.json >/dev/null 2>&1
  t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/confirm.json'))
bs=b['stable']
ps=set(r.get('passed') or [k for k,v in r.items() if v])
print('missing', [x for x in bs if x not in ps][:4])
P
)
  (cd /repo && timeout 300 bash $D/demo.sh >/tmp/confirm.bug 2>&1); d=$?
  git -C /repo checkout -- .
  echo "$id clean_demo=$c build=$b bug_demo=$d $t"; tail -2 /tmp/confirm.bug | cut -c1-200
done

#!/bin/bash
# tools/bug.sh ID...: try planted bugs against /repo (applied, built, tested, demonstrated, checked, undone)
trap 'git -C /repo checkout -q -- .; exit 1' INT TERM
for id in "$@"; do
  d=/verif/seeded/$id; [ -d $d ] || d=/tmp/seeded_hold/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo checkout -q -- .
  cd /repo
  if [ -z "$FAST" ]; then bash /opt/vp/build.sh >/tmp/bug.build 2>&1 || echo "$id: BASE BUILD FAILS"; fi
  bash $d/demo.sh >/tmp/bug.demo0 2>&1 && a=ok || a=BAD
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  b=- ; t=-
  if [ -z "$FAST" ]; then
  bash /opt/vp/build.sh >/tmp/bug.build 2>&1 && b=ok || b=BAD
  bash /opt/vp/test.sh /tmp/bug.test.json >/dev/null 2>&1
  t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/bug.test.json'))
s=json.dumps(r)
pas=r.get('passed',r.get('pass',[]))
print('ok' if all(x in pas for x in b) else 'BAD')
P
)
  fi
  bash $d/demo.sh >/tmp/bug.demo1 2>&1 && c=BAD || c=ok
  r=skip
  if [ -z "$NOCHECK" ]; then
  (cd /verif; ./check $p >/tmp/bug.check 2>&1); e=$?
  r="exit $e $(grep -E 'VIOLATION' /tmp/bug.check)"
  fi
  git -C /repo checkout -q -- .
  echo "$id: demo-clean=$a build=$b tests=$t demo-bug=$c check: $r"
done
if [ -z "$FAST" ]; then bash /opt/vp/build.sh >/tmp/bug.build 2>&1; fi

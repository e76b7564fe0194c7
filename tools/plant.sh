#!/bin/bash
# plant.sh <id> [check-id...]: apply seeded/<id>/patch.diff to /repo, build, run the stable tests, the demo and the given checks; undo.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
id=$1; shift
. /opt/vp/env.sh
d=$here/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh --extensions >/dev/null 2>&1' EXIT
(cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/demo0.log 2>&1); echo "demo clean: rc=$?"
git -C /repo apply "$d/patch.diff" || exit 2
bash /opt/vp/build.sh --extensions >/tmp/plant-build.log 2>&1 || { echo "no build"; tail -5 /tmp/plant-build.log; exit 2; }
(cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/demo1.log 2>&1); echo "demo planted: rc=$? $(tail -c 200 /tmp/demo1.log)"
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/plant-out.json >/dev/null 2>&1
"$PY" -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/plant-out.json'))
m=sorted(set(b['stable'])-set(o['passed'])); print('stable tests lost:',len(m),m[:3])"
fi
for c in "$@"; do
  (cd "$here" && timeout 900 bash checks/run.sh "$c" quick >/tmp/plant-$c.log 2>&1; echo "check $c rc=$?"; grep -E "^VIOLATION|^violation|^  [a-z]" /tmp/plant-$c.log | cut -c1-300 | head -4)
done

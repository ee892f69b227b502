#!/bin/bash
# try.sh SEED...: in /repo: demo on the clean build, then patched: build, demo, stable tests, the check; undone afterwards.
V=$(cd "$(dirname "$0")/../.." && pwd)
cd /repo || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
[ -z "$(git status --porcelain)" ] || { echo dirty; exit 1; }
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1 || { echo "clean build fails"; exit 1; }
for s in "$@"; do
  bash $V/seeded/$s/demo.sh >/tmp/seed_demo0.log 2>&1; c=$?
  echo "$s: demo on the clean tree: $c"
  [ $c = 0 ] || tail -5 /tmp/seed_demo0.log
done
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$s/meta.json'))['property'])")
  git apply $V/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  b=ok; bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1 || b=FAILS
  bash $V/seeded/$s/demo.sh >/tmp/seed_demo1.log 2>&1; c=$?
  t=skipped
  if [ -z "$NOTEST" ]; then
  bash /opt/vp/test.sh /tmp/seed_tests.json >/dev/null 2>&1
  t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/seed_tests.json'))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: return x[k]
    return x
bad=[n for n in b if n not in set(r['passed'])]
print("ok" if not bad else "BROKEN %s" % bad[:4])
P
)
  fi
  out=$(cd $V && python3 tools/check.py $p 2>&1); k=$?
  echo "$s: build $b, demo with patch: $c, tests $t, check $p: exit $k $(echo "$out" | grep VIOLATION)"
  [ $k = 0 ] && echo "$out" | head -5
  git -C /repo checkout -q -- .
done

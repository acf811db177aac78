#!/bin/bash
# seed.sh ID...: applies a planted bug to /repo, confirms it (builds, stable tests pass, demo fails) and runs its property's check; always undone
trap 'git -C /repo checkout -q -- .; git -C /repo clean -fdq src' EXIT
for id in "$@"; do
  d=/verif/seeded/$id
  git -C /repo checkout -q -- .
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  if [ -z "$SKIP" ]; then
    bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || { echo "$id: clean build failed"; continue; }
    (cd /repo && bash $d/demo.sh >/tmp/seed.demo0 2>&1) || { echo "$id: DEMO FAILS ON CLEAN TREE"; tail -20 /tmp/seed.demo0; continue; }
  fi
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  if [ -z "$SKIP" ]; then
    bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || { echo "$id: build failed"; tail -20 /tmp/seed.log; continue; }
    bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1
    python3 - $id <<'P' || continue
import json,sys
o=json.load(open('/tmp/seed.json')); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=set(o.get('passed',[])); m=[x for x in b if x not in p]
if m: print(sys.argv[1],'BREAKS TESTS',m); sys.exit(1)
P
    (cd /repo && bash $d/demo.sh >/tmp/seed.demo1 2>&1) && { echo "$id: DEMO PASSES WITH THE BUG"; cat /tmp/seed.demo1; continue; }
  fi
  for p in ${PROPS:-$prop}; do
    s=$(date +%s); (cd /verif && python3 check.py $p quick) >/tmp/seed.chk 2>&1; rc=$?
    echo "$id: $p rc=$rc $(($(date +%s)-s))s: $(grep -a '^violated\|no answer' /tmp/seed.chk | head -2 | cut -c1-200)"
  done
  git -C /repo checkout -q -- .
done

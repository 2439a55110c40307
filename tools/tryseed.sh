#!/bin/bash
# tryseed.sh ID [CHECK...]: confirm a planted bug (demo passes clean, patch builds,
# stable tests pass, demo fails) and run its property's check (or those named) on it.
id=$1; shift
R=${VERIF_REPO:-/repo}; V=$(cd "$(dirname "$0")/.." && pwd)
d=$V/seeded/$id
git -C $R diff --quiet || { echo "repo dirty"; exit 2; }
P=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd $R
if [ -z "$SKIPDEMO" ]; then bash $d/demo.sh >/tmp/seed_clean.log 2>&1; c=$?; else c=0; fi
git apply $d/patch.diff || exit 2
t=0
if [ -z "$SKIPDEMO" ]; then
bash $V/tools/rtest.sh >/tmp/seed_test.log 2>&1; t=$?
bash $d/demo.sh >/tmp/seed_bug.log 2>&1; b=$?; else b=1; fi
echo "$id: demo clean=$c tests=$t demo patched=$b  $( [ $c = 0 -a $t = 0 -a $b != 0 ] && echo VALID || { echo INVALID; tail -n 3 /tmp/seed_clean.log /tmp/seed_test.log /tmp/seed_bug.log; })"
for k in ${@:-$P}; do
  (cd $V && timeout 900 python3 run.py $k quick >/tmp/seed_check.log 2>&1); r=$?
  echo "   $k -> rc $r $(grep -m1 '^VIOLATION' /tmp/seed_check.log)"
done
git -C $R checkout -q -- .

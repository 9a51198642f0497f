#!/bin/bash
# For each seed (default all): apply to /repo, build, tests, demo must fail, check; undo; demo must pass on the clean tree.
cd /verif; . env.sh; ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for i in $ids; do
  d=seeded/$i; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -z "$NODEMO" ] && { (cd /repo && bash /verif/$d/demo.sh >/tmp/demo_clean.log 2>&1) && c=ok || c="DEMO-FAILS-ON-CLEAN"; }
  git -C /repo apply /verif/$d/patch.diff || { echo "$i: PATCH DOES NOT APPLY"; continue; }
  if [ -z "$NODEMO" ]; then
    (cd /repo && bash /verif/$d/demo.sh >/tmp/demo_bug.log 2>&1) && b="DEMO-PASSES-WITH-BUG" || b=ok
    t=$(bash tools/tests.sh)
  fi
  if [ -z "$NOCHECK" ]; then out=$(bash run.sh $prop quick 2>&1); rc=$?; fi
  git -C /repo checkout -- .
  echo "$i [$prop] clean:$c bug:$b tests:${t#stable missing: } rc=$rc $(echo "$out" | grep -m3 "^VIOLATION\|^  " | tr '\n' '|' | cut -c1-300)"
done

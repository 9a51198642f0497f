#!/bin/bash
# tools/seedcheck.sh [ids]: the check of each seed's property on a scratch clone with the seed applied (no demo, no tests)
cd /verif; . env.sh; ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for i in $ids; do
  d=seeded/$i; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); W=/tmp/sc-$i
  rm -rf "/tmp/sc-$i"; git clone -q ${REPO:-/repo} $W; git -C $W apply /verif/$d/patch.diff || { echo "$i: PATCH DOES NOT APPLY"; continue; }
  out=$(${GOVC:-bin/govc} check $prop -tier quick -root /verif -repo $W -noevidence 2>&1); rc=$?
  echo "$i [$prop] rc=$rc $(echo "$out" | grep -m3 "failed obl" | tr '\n' '|' | cut -c1-260) $(echo "$out" | tail -1 | cut -c1-120)"
  rm -rf "/tmp/sc-$i"
done

#!/bin/bash
# catch.sh ID...: runs the check of each seed's property against a scratch copy with the seed applied.
for id in "$@"; do
  s=/verif/seeded/$id; w=/tmp/seedcatch/$id
  rm -rf /tmp/seedcatch/$id; mkdir -p $w
  git -C /repo archive HEAD | tar -x -C $w
  ( cd $w && git init -q . && git apply $s/patch.diff ) || { echo "$id: patch does not apply"; continue; }
  p=${PROP:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
  ( cd /verif && VERIF_OUT=/tmp/seedcatch TECS_REPO=$w timeout 900 python3 check.py $p > $w/log 2>&1 ); rc=$?
  echo "$id $p: rc=$rc $(grep -a -m1 '^  .* at ' $w/log | cut -c1-200)$( [ $rc = 1 ] || grep -a -m2 UNDECIDED $w/log | cut -c1-200)"
  rm -rf /tmp/seedcatch/$id
done

#!/bin/bash
# try.sh ID...: validates seeds in a scratch copy of /repo: applies, builds, tests pass, demo 0 on /repo and nonzero with the patch.
for id in "$@"; do
  s=/verif/seeded/$id; w=/tmp/seedtry/$id
  rm -rf /tmp/seedtry/$id; mkdir -p $w/run
  git -C /repo archive HEAD | tar -x -C $w || continue
  ( cd /repo && timeout 300 bash $s/demo.sh > $w/demo0.log 2>&1 ); d0=$?
  ( cd $w && git init -q . && git apply $s/patch.diff ) || { echo "$id: patch does not apply"; continue; }
  ( cmake -S $w -B $w/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_C_COMPILER=gcc -DCMAKE_CXX_COMPILER=g++ && ninja -C $w/_build ) > $w/build.log 2>&1 || { echo "$id: BUILD FAILS"; grep -m5 error $w/build.log; continue; }
  for t in Tecs-tests Tecs-tests-unchecked Tecs-benchmark; do
    ( cd $w/run; stdbuf -oL timeout -k 5 120 $w/_build/tests/$t > $t.log 2>&1; echo $? > $t.rc )
  done
  python3 /opt/vp/tecs_lines.py $w/run > $w/run/result.lines
  python3 /opt/vp/results.py $w/run/o.json "lines:$w/run/result.lines"
  bad=$(python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('$w/run/o.json'))
print(len(set(b)-set(r['passed'])), (sorted(set(b)-set(r['passed']))+[''])[0])
PY
)
  ( cd $w && timeout 300 bash $s/demo.sh > $w/demo1.log 2>&1 ); d1=$?
  echo "$id: tests-lost=$bad demo-clean=$d0 demo-bug=$d1 $(tail -1 $w/demo1.log | cut -c1-100)"
  [ -z "$KEEP" ] && rm -rf /tmp/seedtry/$id
done

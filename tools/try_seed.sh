#!/bin/bash
# try_seed.sh ID [skip]: confirms a planted bug (builds, tests pass, demonstration tells it apart) and runs its check.
# Always leaves /repo as it was.
s=/verif/seeded/$1
[ -f $s/patch.diff ] || exit 2
p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
cd /repo
if [ "$2" != skip ]; then
  bash $s/demo.sh > /tmp/demo.log 2>&1 || { echo "$1: demo FAILS on the unchanged tree"; tail -3 /tmp/demo.log; }
fi
git apply $s/patch.diff || exit 2
if [ "$2" != skip ]; then
  bash /tmp/rt.sh > /tmp/rt.log 2>&1 || { echo "$1: build or tests FAIL"; tail -3 /tmp/rt.log; }
  bash $s/demo.sh > /tmp/demo.log 2>&1 && echo "$1: demo does NOT notice"
fi
(cd /verif; python3 run.py $p > /tmp/seed.log 2>&1); rc=$?
git checkout -q -- .
echo "$1 ($p): check exit $rc: $(grep -v VIOLATION /tmp/seed.log | sed -n 2,4p | cut -c1-200)"

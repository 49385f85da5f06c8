#!/bin/bash
# plant.sh ID: confirm a planted bug in a scratch copy (builds, stable tests pass, demo distinguishes).
# With a second argument `check`, also run the property's quick check against the patched /repo and undo it.
id=$1; S=/verif/seeded/$id; W=/tmp/plant-$id
rm -rf /tmp/plant-$id; mkdir -p /tmp/plant-$id; cp -a /repo /tmp/plant-$id/repo
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd $W/repo
run_demo() { ( cd $W/repo; rm -rf /tmp/plant-$id/demo; mkdir /tmp/plant-$id/demo; cp $S/* $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json; timeout 300 bash $W/demo/demo.sh >$W/demo.$1.log 2>&1; echo "demo $1: $?" ); }
run_demo clean
git apply $S/patch.diff || { echo "patch does not apply"; exit 2; }
export HOME=/root
( . /opt/vp/env.sh >/dev/null 2>&1; cd $W/repo; export CARGO_TARGET_DIR=$W/repo/target
  cargo test --workspace --all-features --all-targets --offline > $W/test.log 2>&1; echo "tests: $?"; grep -E "^test result|FAILED|panicked" $W/test.log | head -8 )
run_demo patched
tail -3 $W/demo.patched.log
if [ "$2" = check ]; then
  cd /verif; git -C /repo apply $S/patch.diff && ./check.py $prop quick | tail -5; echo "check rc ${PIPESTATUS[0]}"; git -C /repo checkout -- .
fi
rm -rf /tmp/plant-$id

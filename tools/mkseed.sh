#!/bin/bash
# mkseed.sh NAME PROPERTY NEEDS WHAT : turns the change made in /tmp/sr (a worktree copy of /repo) and /tmp/seed.rs into seeded/NAME.
set -e
N=$1; D=/verif/seeded/$N; mkdir -p $D
git -C /tmp/sr diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "no change"; exit 1; }
cp /verif/tools/demo_template.sh $D/demo.sh; cp /verif/tools/demo.lock $D/demo.lock; cp /tmp/seed.rs $D/demo.rs; chmod +x $D/demo.sh
python3 - "$@" <<'P'
import json,sys
n,p,needs,what=sys.argv[1:5]
json.dump({"property":p,"needs":needs,"what_it_breaks":what},open("/verif/seeded/%s/meta.json"%n,"w"),indent=1)
P
export DEMO_TARGET=/tmp/dgt
(cd /tmp/sr && bash $D/demo.sh > /tmp/seed.mut 2>&1) && { echo "NOT DETECTED BY DEMO with patch"; tail -3 /tmp/seed.mut; exit 1; } || true
tail -4 /tmp/seed.mut | cut -c1-300
grep -q "does not build" /tmp/seed.mut && { echo DOES NOT BUILD; cat /tmp/seed.mut | head -40; exit 1; }
git -C /tmp/sr stash -q
(cd /tmp/sr && bash $D/demo.sh > /tmp/seed.ok 2>&1) && echo "demo ok on clean" || { echo "DEMO FAILS CLEAN"; tail -5 /tmp/seed.ok; git -C /tmp/sr stash pop -q; exit 1; }
git -C /tmp/sr stash pop -q
# library tests with the change
(cd /tmp/sr && CARGO_TARGET_DIR=/tmp/srt RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=0 timeout 800 cargo test --offline -q -p differential-dataflow -p differential-dogs3 -p interactive --lib --tests > /tmp/seed.test 2>&1) && echo "tests pass" || { echo "TESTS FAIL"; grep -E "FAILED|failed|panicked|error" /tmp/seed.test | head; }
# the property's own check
P=$2
(cd /verif && DD_REPO=/tmp/sr DD_BUILD=/tmp/srb python3 dd/check.py $P > /tmp/seed.chk 2>&1) && echo CHECK-MISSED || echo "check exit $?"; grep -v "^property" /tmp/seed.chk | head -6 | cut -c1-400
git -C /tmp/sr checkout -q -- .

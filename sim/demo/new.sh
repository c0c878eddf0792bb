#!/bin/bash
# new.sh ID PROPERTY: (re)assemble /verif/seeded/ID from a patch on stdin-provided files; run the demo both ways.
# expects /verif/seeded/ID/{patch.diff,demo_test.go.txt,meta.json}
set -e
d=/verif/seeded/$1
cp /verif/sim/demo/kit_test.go $d/kit_test.go.txt
cp /verif/sim/demo/demo.sh $d/demo.sh
s=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$s"' EXIT
mkdir $s/repo && git -C /repo archive HEAD | tar -x -C $s/repo
cd $s/repo && git init -q .
cp -a $d $s/demo
bash $s/demo/demo.sh > $s/out 2>&1 && echo "unchanged: ok" || { echo "unchanged: FAIL"; tail -20 $s/out; }
git apply $d/patch.diff
go build ./... || exit 1
bash $s/demo/demo.sh > $s/out 2>&1 && { echo "patched: NOT caught by demo"; tail -5 $s/out; } || { echo "patched: fails as it should"; grep -v '^ok\|^PASS' $s/out | tail -4; }
go test ./... 2>&1 | grep -v "no test files" | grep -v "^ok" && echo "TESTS FAIL" || echo "tests pass"

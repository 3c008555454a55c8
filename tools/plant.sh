#!/bin/bash
# usage: plant.sh NAME PROPERTY [CHECK...]  (run with the bug applied, uncommitted, in the scratch copy /tmp/plant/repo)
# Confirms that the change in /tmp/plant/repo builds, passes the stable tests, and that
# seeded/NAME/demo.sh tells it from the unchanged tree; writes patch.diff; then runs the checks against it.
# plant.sh --try NAME CHECK...: only runs the checks against seeded/NAME/patch.diff.
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
if [ "$1" = --try ]; then
    name=$2; shift 2
else
    name=$1; prop=$2; shift 2
    [ $# = 0 ] && set -- $prop
    d=/verif/seeded/$name
    cd /tmp/plant/repo || exit 1
    git diff > $d/patch.diff
    [ -s $d/patch.diff ] || { echo "no change"; exit 1; }
    go build ./... || { echo BUILD FAILS; exit 1; }
    go vet ./... >/dev/null 2>&1
    go test ./... 2>&1 | grep -v '^ok\|no test files' | head -5
    timeout 300 bash $d/demo.sh > /tmp/plant/out 2>&1; r1=$?
    git stash -q; timeout 300 bash $d/demo.sh > /tmp/plant/out0 2>&1; r0=$?; git stash pop -q
    echo "demo: unchanged=$r0 patched=$r1"
    tail -3 /tmp/plant/out
    [ $r0 = 0 ] || { cat /tmp/plant/out0 | tail; exit 1; }
    [ $r1 != 0 ] || exit 1
    git checkout -q -- .
fi
[ "$1" = none ] && exit 0
git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
git -C /repo apply /verif/seeded/$name/patch.diff || exit 1
[ "$1" = none ] && exit 0
for c in "$@"; do
    timeout 900 bash /verif/run.sh $c quick > /tmp/plant/check 2>&1; rc=$?
    echo "check $c: rc=$rc $(grep -c '^VIOLATION' /tmp/plant/check)"; head -3 /tmp/plant/check | cut -c1-300
done
git -C /repo checkout -q -- .

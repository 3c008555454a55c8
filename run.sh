#!/bin/bash
# usage: bash run.sh ID [quick|thorough]
# Builds the checker for property ID from /repo's current working tree and runs it.
export HOME=${HOME:-/root}
export PATH=$PATH:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_DIR
build_only=
if [ "$1" = --build-only ]; then
    build_only=1
    shift
fi
id=${1:?usage: run.sh ID [tier]}
tier=${2:-${VERIF_TIER:-quick}}
for f in go.mod go.sum; do
    [ -e /repo/$f ] || cp /opt/vp/gomod/$f.in /repo/$f
done
work=$(mktemp -d /tmp/verif-mc.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
export VERIF_WORK=$work
cd "$VERIF_DIR/mc" || exit 2
read -r pkg instr < <(bash "$VERIF_DIR/mc/pkgof.sh" "$id")
overlay=
if [ -n "$instr" ]; then
    mkdir "$work/instr" && go build -o "$work/instr/instr" ./cmd/instr &&
        "$work/instr/instr" "$work/instr" /repo/x/platform || exit 2
    overlay="-overlay=$work/instr/overlay.json"
fi
if ! go build -tags osusergo $overlay -o "$work/mc" "$pkg" 2>"$work/err"; then
    cat "$work/err" >&2
    exit 2
fi
[ -n "$build_only" ] && exit 0
"$work/mc" "$id" "$tier"

#!/bin/bash
# Builds the simulation harness from the working tree of /repo (or $VERIF_REPO).
# Everything goes to .build, which git ignores.
cd "$(dirname "$0")" || exit 3
V=$(pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
mkdir -p .build || exit 3
exec 9>.build/lock
flock 9
LUA=$GOMODCACHE/github.com/yuin/gopher-lua@v1.1.1
(cd instr && go build -o "$V/.build/wpkinstr" .) || exit 3
(cd sim && "$V/.build/wpkinstr" -repo /repo -out "$V/.build" -lua "$LUA") || exit 3
(cd sim && go build -overlay "$V/.build/overlay.json" -o "$V/.build/harness.new" ./harness) || exit 3
mv -f "$V/.build/harness.new" "$V/.build/harness" || exit 3

#!/bin/bash
# run.sh build | check PROP | replay FILE | run PROP SEED [COUNT]
# Builds the driver, then the simulator from /repo's working tree, and runs it.
set -e
verif=$(cd "$(dirname "$0")" && pwd)
export DST_VERIF="$verif" DST_REPO="${DST_REPO:-/repo}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
cd "$verif/dst"
mkdir -p "$verif/.build"
GOFLAGS= go build -o "$verif/.build/dst.$$" .
mv -f "$verif/.build/dst.$$" "$verif/.build/dst"
cd "$verif"
exec "$verif/.build/dst" "$@"

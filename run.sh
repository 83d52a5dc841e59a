#!/bin/bash
# run.sh ID : builds the harness against /repo's current working tree and runs one check.
set -u
cd "$(dirname "$0")"
export VERIF_ROOT="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
id="$1"; shift
mkdir -p .build
tool=check
[ "$id" = C15 ] && exec ./harness/c15.sh "$@"
(cd harness && go build -o "../.build/check-$id" ./cmd/check) || { echo "build failed"; exit 2; }
exec "./.build/check-$id" "$id" "$@"

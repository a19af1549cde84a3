#!/bin/bash
# build.sh SCRATCH: instruments a copy of /repo's working tree in SCRATCH/src and
# builds the simulator from it as SCRATCH/sim. Never touches /repo.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
scratch=$1
repo=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=${GOPATH:-/root/go} PATH=/opt/veriftools/go1.27.3/bin:$PATH
mkdir -p "$scratch/src"
tar -C "$repo" --exclude=./.git -cf - . | tar -C "$scratch/src" -xf -
mkdir -p "$scratch/src/verifsim"
cp -R "$here/sim/simrt" "$here/sim/harness" "$scratch/src/verifsim/"
(cd "$here/rewrite" && go build -o "$scratch/rewrite" .)
"$scratch/rewrite" "$scratch/src"
(cd "$scratch/src" && go build -o "$scratch/sim" ./verifsim/harness)

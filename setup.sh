#!/bin/bash
# Builds the rewriter once and compiles the instrumented tree, so that trouble
# with the tool chain shows before any check runs.
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOPROXY=off GOWORK=off
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verifsim.XXXXXXXX") || exit 3
trap 'rm -rf "$scratch"' EXIT
set -e
(cd "$here/sim/instrument" && GOFLAGS=-mod=mod go build -trimpath -o "$scratch/instrument" .)
mkdir "$scratch/tree"
"$scratch/instrument" -repo /repo -out "$scratch/tree" -rt "$here/sim/rt"
cd "$scratch/tree"
go build -trimpath -o "$scratch/sim" ./verifsim/cmd/sim
go build -trimpath -race -o "$scratch/simrace" ./verifsim/cmd/sim
echo "setup: ok"

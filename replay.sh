#!/bin/bash
# replay.sh FILE: runs the execution recorded in a replay file again, against
# /repo's working tree. Exit 1 if the violation happens, 0 if it does not.
here=$(cd "$(dirname "$0")" && pwd)
f=$(realpath "$1") || exit 3
p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$f") || exit 3
export GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOPROXY=off GOWORK=off
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verifsim.XXXXXXXX") || exit 3
trap 'rm -rf "$scratch"' EXIT
race=
[ "$p" = C11 ] && race=-race
(cd "$here/sim/instrument" && GOFLAGS=-mod=mod go build -o "$scratch/instrument" .) && mkdir "$scratch/tree" &&
"$scratch/instrument" -repo "${VERIF_REPO:-/repo}" -out "$scratch/tree" -rt "$here/sim/rt" >/dev/null &&
(cd "$scratch/tree" && go build -trimpath $race -o "$scratch/sim" ./verifsim/cmd/sim) || exit 3
export GORACE="suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 log_path=$scratch/race"
"$scratch/sim" replay "$f"
exit $?

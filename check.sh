#!/bin/bash
# check.sh PROPERTY TIER: instruments /repo's working tree, builds the simulator
# with it and searches for violations of the property.
# Exit 0: held on everything explored; 1: violation; anything else: trouble.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
repo=${VERIF_REPO:-/repo}
export GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on CGO_ENABLED=1
unset GOMAXPROCS GODEBUG GOOS GOARCH
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verifsim.XXXXXXXX") || exit 3
trap 'rm -rf "$scratch"' EXIT
trap 'exit 3' INT TERM HUP
race=
[ "$prop" = C11 ] && race=-race
build() {
  (cd "$here/sim/instrument" && GOFLAGS=-mod=mod go build -trimpath -o "$scratch/instrument" .) &&
  mkdir "$scratch/tree" &&
  "$scratch/instrument" -repo "$repo" -out "$scratch/tree" -rt "$here/sim/rt" &&
  (cd "$scratch/tree" && go build -trimpath $race -o "$scratch/sim" ./verifsim/cmd/sim)
}
if ! build >"$scratch/log" 2>&1; then
  cat "$scratch/log" >&2
  echo "check.sh: /repo could not be instrumented or built" >&2
  exit 3
fi
rm -rf "$scratch/tree"
mkdir -p "$here/replays" "$here/evidence"
export GORACE="suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 log_path=$scratch/race"
cd "$scratch" || exit 3
"$scratch/sim" check -prop "$prop" -tier "$tier" -seed "$seed" -replays "$here/replays" \
  -evidence "$here/evidence/$prop.json"
exit $?

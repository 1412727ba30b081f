#!/bin/bash
# Builds the simulator from /repo's current tree into build/; prints its path.
set -euo pipefail
cd "$(dirname "$0")"
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0
R=${REPO:-/repo}
B=${BUILD:-$PWD/build}
mkdir -p "$B"
exec 9>"$B/.lock"
flock 9
(cd sim/gen && go build -o "$B/gen" .) >&2
M="$B/m"
rm -rf "$M.new"
mkdir -p "$M.new/zzsim"
"$B/gen" -repo "$R" -out "$M.new" >&2
cp -r sim/rt/* sim/harness "$M.new/zzsim/"
rm -rf "$M"
mv "$M.new" "$M"
(cd "$M" && go build -o "$B/sim.new" ./zzsim/harness) >&2
mv "$B/sim.new" "$B/sim"
echo "$B/sim"

#!/bin/bash
# Litmus tests of the simulator's detectors: races, deadlocks and crashes that must be
# found, and synchronisation that must not be reported.
set -euo pipefail
V=$(cd "$(dirname "$0")/.." && pwd)
T=$(mktemp -d /tmp/litmus.XXXXXX)
trap 'rm -rf "$T"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off CGO_ENABLED=0
git -C /repo archive HEAD | (mkdir "$T/repo" && tar x -C "$T/repo")
mkdir "$T/repo/parallel/tort"
cp "$V/sim/selftest/t.go.txt" "$T/repo/parallel/tort/t.go"
cp "$V/sim/selftest/litmus.go.txt" "$T/repo/parallel/tort/litmus.go"
(cd "$T/repo" && go vet ./parallel/tort 2>&1 | grep -v "copies lock\|^#\|self-assign\|passes lock" >&2 || true)
REPO="$T/repo" BUILD="$T/b" "$V/build.sh" >/dev/null
mkdir "$T/b/m/zz"
cp "$V/sim/selftest/litmusmain.go.txt" "$T/b/m/zz/main.go"
(cd "$T/b/m" && go build -o "$T/main" ./zz)
"$T/main" "$@"

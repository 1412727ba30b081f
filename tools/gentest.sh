#!/bin/bash
# Tests the instrumenter and the shims: a program that uses most of the language
# must behave the same when simulated (many schedules) as when run plainly.
set -euo pipefail
V=$(cd "$(dirname "$0")/.." && pwd)
T=$(mktemp -d /tmp/gentest.XXXXXX)
trap 'rm -rf "$T"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off CGO_ENABLED=0
git -C /repo archive HEAD | (mkdir "$T/repo" && tar x -C "$T/repo")
mkdir "$T/repo/parallel/tort" "$T/repo/zz"
cp "$V/sim/selftest/t.go.txt" "$T/repo/parallel/tort/t.go"
cp "$V/sim/selftest/z.go.txt" "$T/repo/parallel/tort/z.go"
cp "$V/sim/selftest/plainmain.go.txt" "$T/repo/zz/main.go"
(cd "$T/repo" && go run ./zz) >"$T/plain.txt"
rm -rf "$T/repo/zz"
REPO="$T/repo" BUILD="$T/b" "$V/build.sh" >/dev/null
mkdir "$T/b/m/zz"
cp "$V/sim/selftest/simmain.go.txt" "$T/b/m/zz/main.go"
(cd "$T/b/m" && go build -o "$T/simmain" ./zz)
for i in $(seq 1 ${1:-300}); do
	"$T/simmain" "$i" >"$T/o.txt" 2>&1
	diff "$T/o.txt" "$T/plain.txt" || { echo "seed $i differs"; exit 1; }
done
echo "same behaviour on ${1:-300} schedules"

#!/bin/bash
# catch.sh [ID...]: runs the quick check of its property against every planted bug, in a scratch copy of /repo.
V=$(cd "$(dirname "$0")/.." && pwd)
T=$(mktemp -d /tmp/catch.XXXXXX)
trap 'rm -rf "$T"' EXIT
git -C /repo archive HEAD | (mkdir "$T/repo" && tar x -C "$T/repo")
(cd "$T/repo" && git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x)
cd "$V/seeded"
for id in ${@:-*}; do
	p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' $id/meta.json)
	git -C "$T/repo" checkout -q -- . && git -C "$T/repo" apply "$V/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
	if ! REPO="$T/repo" BUILD="$T/b" "$V/build.sh" >/dev/null 2>"$T/err"; then echo "$id ($p): BUILD FAILS"; head -3 "$T/err"; continue; fi
	s=$(date +%s)
	o=$("$T/b/sim" -prop "$p" -tier quick -seed 1 -out "$T" 2>"$T/err"); rc=$?
	e=$(( $(date +%s) - s ))
	case $rc in
	1) echo "$id ($p): caught in $e s: $(echo "$o" | grep -v ^VIOLATION | head -1 | cut -c1-150)" ;;
	0) echo "$id ($p): MISSED ($e s)" ;;
	*) echo "$id ($p): rc=$rc $(head -2 "$T/err")" ;;
	esac
done

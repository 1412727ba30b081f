#!/bin/bash
# quiet.sh [RUNS] [NAME...]: applies each behaviour-preserving refactoring of /verif/refactor
# to a scratch copy of /repo and runs all checks on it; they must stay quiet.
V=$(cd "$(dirname "$0")/.." && pwd)
RUNS=${1:-40000}; shift
NAMES=${*:-$(cd $V/refactor && ls *.diff | sed 's/\.diff$//')}
T=$(mktemp -d /tmp/quiet.XXXXXX)
trap 'rm -rf "$T"' EXIT
bad=0
for n in $NAMES; do
  rm -rf $T/repo $T/build; git clone -q /repo $T/repo
  git -C $T/repo apply $V/refactor/$n.diff || { echo "$n: does not apply"; bad=1; continue; }
  REPO=$T/repo BUILD=$T/build $V/build.sh >$T/log 2>&1 || { echo "$n: BUILD FAILS"; tail -5 $T/log; bad=1; continue; }
  q=0
  for p in $($T/build/sim -list | grep -o 'C[0-9][0-9]' | sort -u); do
    $T/build/sim -prop $p -runs $RUNS -out $T/o >$T/out 2>&1; rc=$?
    if [ $rc = 0 ]; then q=$((q+1)); else echo "$n: $p exits $rc"; head -4 $T/out; bad=1; fi
  done
  echo "$n: $q checks quiet"
done
exit $bad

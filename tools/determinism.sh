#!/bin/bash
# Runs a sample of the seeds of every property twice, in processes with different
# GOMAXPROCS and ASLR, and compares every run's schedule hash, steps and outcome.
cd "$(dirname "$0")/.." || exit 2
N=${1:-4000}
SIM=$(./build.sh) || exit 2
rc=0
for p in $("$SIM" -list); do
	a=$(GOMAXPROCS=1 "$SIM" -prop "$p" -selftest -start 0 -stop "$N" -stride 7 | md5sum)
	b=$(GOMAXPROCS=8 GOGC=20 "$SIM" -prop "$p" -selftest -start 0 -stop "$N" -stride 7 | md5sum)
	n=$("$SIM" -prop "$p" -selftest -start 0 -stop "$N" -stride 7 | wc -l)
	if [ "$a" = "$b" ]; then echo "$p deterministic ($n runs)"; else echo "$p DIFFERS"; rc=1; fi
done
exit $rc

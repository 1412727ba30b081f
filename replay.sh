#!/bin/bash
# replay.sh FILE [-trace]: rebuilds the simulator and repeats a recorded run.
cd "$(dirname "$0")" || exit 2
F=$(realpath "$1"); shift
SIM=$(./build.sh) || exit 2
exec "$SIM" -replay "$F" "$@"

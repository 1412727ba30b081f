#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuilds the simulator from /repo's current
# tree and searches schedules and faults for a violation of the property.
cd "$(dirname "$0")" || exit 2
P=$1
T=${2:-${VERIF_TIER:-quick}}
S=${VERIF_SEED:-1}
SIM=$(./build.sh) || { echo "ERROR: cannot build the simulator from the current tree" >&2; exit 2; }
exec "$SIM" -prop "$P" -tier "$T" -seed "$S" -out "$PWD"

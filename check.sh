#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's tree.
cd "$(dirname "$0")" || exit 2
tier=${2:-${VERIF_TIER:-quick}}
# the build is incremental; it costs nothing when the binary is current
bash setup.sh >&2 || { echo "ERROR: the engine does not build"; exit 2; }
exec bin/engine check -verif "$PWD" -property "$1" -tier "$tier"

#!/bin/bash
# check.sh PROPERTY quick|thorough: build the simulator from /repo, then search.
cd "$(dirname "$0")" || exit 3
bash sim/build.sh || { echo "the simulator does not build from /repo" >&2; exit 3; }
exec .build/sim check "$1" "$2"

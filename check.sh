#!/bin/bash
# check.sh ID TIER: builds the simulator against /repo and runs one check
cd "$(dirname "$0")" || exit 3
export VERIF_ROOT="$PWD"
bash sim/build.sh || exit 3
exec sim/target/release/sim check "$1" "$2"

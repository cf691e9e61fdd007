#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuild from /repo's working tree, then simulate.
# Exit 0: held; 1: VIOLATION line printed; anything else: the check itself failed.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
log=$(mktemp)
if ! bash "$here/build.sh" >"$log" 2>&1; then
    echo "the simulator did not build from /repo's tree:"
    tail -n 60 "$log"
    rm -f "$log"
    exit 3
fi
rm -f "$log"
"$here/sim/target/release/ntt-sim" check --prop "$prop" --tier "$tier" --seed "${VERIF_SEED:-1}" --root "$here"

#!/bin/bash
# replay.sh FILE: rebuild, then re-execute a replay file exactly. Exit 1 if the violation reproduces.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" >/dev/null 2>&1 || exit 3
"$here/sim/target/release/ntt-sim" replay "$1" --root "$here"

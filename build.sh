#!/bin/bash
# Build the simulator against /repo's current working tree.
#
# Cargo decides staleness by mtime; a tree restored from git or copied can carry
# any mtime, so the contents are hashed here and the crates under test are
# rebuilt whenever the hash moves.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export CARGO_TARGET_DIR=$here/sim/target RUSTFLAGS="--cap-lints allow" CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
cd "$here/sim"
mkdir -p target
exec 9>target/.build-lock
flock 9
stamp=$( (cd /repo/solana && find . \( -name target -o -name node_modules -o -name .git \) -prune -o -type f \
            \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.so' -o -name '*.json' \) -print0 \
            | LC_ALL=C sort -z | xargs -0 sha256sum;
          cd "$here/sim" && find src stubs Cargo.toml Cargo.lock -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
if [ "$(cat target/.tree-stamp 2>/dev/null)" != "$stamp" ]; then
    for c in example-native-token-transfers ntt-transceiver ntt-quoter wormhole-governance dummy-transfer-hook ntt-messages ntt-sim; do
        for d in target/release/.fingerprint/$c-*; do
            if [ -d "$d" ]; then find "$d" -type f -delete; fi
        done
    done
fi
cargo build --release --offline --locked "$@" || cargo build --release --offline "$@"
echo "$stamp" > target/.tree-stamp

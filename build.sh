#!/bin/bash
# Build broker-sim: /repo/src/main.rs as it is now, against the simulated tokio.
set -eu
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$PWD/target
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
# do not rely on modification times alone
sum=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
mkdir -p target
if [ "$sum" != "$(cat target/repo.sum 2>/dev/null)" ]; then
    find target -maxdepth 3 -path '*/.fingerprint/mqttsim-*' -prune -print0 | while IFS= read -r -d '' d; do
        case $d in target/*/.fingerprint/mqttsim-*) rm -r "$PWD/$d";; esac
    done
fi
cd sim
cargo build --locked
echo "$sum" >../target/repo.sum

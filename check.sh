#!/bin/bash
# check.sh PROPERTY [TIER]: builds the contracts from /repo's working tree and the harness, then decides PROPERTY.
# check.sh --build: only builds.
HERE=$(cd "$(dirname "$0")" && pwd)
PROP=$1
TIER=${2:-${VERIF_TIER:-quick}}
REPO=${VERIF_REPO:-/repo}
B=$HERE/build
W=$B/wasm
mkdir -p "$B" "$HERE/evidence"
WDIR=$W/wasm32-unknown-unknown/release

contracts() (
    . /opt/vp/env.sh
    # Start from /repo's own build products where they are, to save time; the contracts themselves are always recompiled.
    if [ ! -d "$WDIR" ] && [ -d "$REPO/target/wasm32-unknown-unknown/release" ] && [ -d "$REPO/target/release" ]; then
        mkdir -p "$W/wasm32-unknown-unknown"
        cp -a "$REPO/target/wasm32-unknown-unknown/release" "$WDIR" && cp -a "$REPO/target/release" "$W/release" ||
            { find "$W" -delete; mkdir -p "$W"; }
    fi
    find "$W" -depth -path '*/.fingerprint/ref[-_]*' -delete 2>/dev/null
    find "$W" -maxdepth 3 -name 'ref_*.wasm' -delete 2>/dev/null
    cd "$REPO" && CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=$W cargo build --offline --locked \
        -p ref-exchange -p ref_farming --target wasm32-unknown-unknown --release
)

harness() (
    export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
    unset RUSTC RUSTDOC RUSTFLAGS RUSTC_WRAPPER RUSTUP_TOOLCHAIN
    cd "$HERE/harness" && CARGO_TARGET_DIR=$B/harness CARGO_NET_OFFLINE=true cargo +stable build --release --offline
)

exec 9> "$B/lock"
flock 9
contracts > "$B/contracts.log" 2>&1 &
P=$!
harness > "$B/harness.log" 2>&1 || { echo "the harness does not build:"; tail -30 "$B/harness.log"; wait; exit 2; }
wait $P || { echo "the contracts do not build:"; tail -30 "$B/contracts.log"; exit 2; }
[ -f "$WDIR/ref_exchange.wasm" ] && [ -f "$WDIR/ref_farming.wasm" ] || { echo "no contract was built"; exit 2; }
flock -u 9
exec 9>&-
[ "$PROP" = --build ] && exit 0
exec "$B/harness/release/refverif" run "$PROP" --root "$HERE" --wasm "$WDIR" --tier "$TIER"

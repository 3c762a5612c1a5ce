#!/bin/bash
# build the extractor and the replay crate from the committed files (offline)
set -e
cd "$(dirname "$0")/.."
export CARGO_NET_OFFLINE=true
mkdir -p .build evidence replays
CARGO_TARGET_DIR=$PWD/.build/vx cargo build --offline --quiet --manifest-path vx/Cargo.toml
CARGO_TARGET_DIR=$PWD/.build/replay cargo build --release --offline --quiet --manifest-path replay/Cargo.toml || true
CARGO_TARGET_DIR=$PWD/.build/replay-full cargo build --release --offline --quiet --manifest-path replay/Cargo.toml --features full || true
# the dependencies of the crate under test, for its macro expansion
X=$(mktemp -d)
cp -a /repo/Cargo.toml /repo/src /repo/benches "$X/" && { [ ! -f /repo/Cargo.lock ] || cp /repo/Cargo.lock "$X/"; }
RUSTC_BOOTSTRAP=1 CARGO_TARGET_DIR=$PWD/.build/expand cargo rustc --offline --quiet --lib --profile check --manifest-path "$X/Cargo.toml" -- -Zunpretty=expanded >/dev/null || true
rm -rf "$X"

#!/bin/bash
# Runs the repository's own unit tests of the crates its workspace cannot build offline, in a scratch copy
# of the mirror (build/ws) with the stand-ins under shims/. It validates the stand-ins against the project's
# expectations, and repairs in /repo against the project's own tests. Not a check.
# Usage: upstream_tests.sh [crate...]      (default: all)
set -u
S=$(mktemp -d /tmp/upstream.XXXXXX)
trap 'rm -rf "$S"' EXIT
cp -a /verif/build/ws/. "$S/"
sed -i '/^bencher/d' "$S"/*/Cargo.toml
sed -i 's/"sync"\] }/"sync", "rt"] }/' "$S/rad/Cargo.toml"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$S/target" RUST_BACKTRACE=0
export RUSTFLAGS="--cap-lints warn -Awarnings"
cd "$S"
for c in ${*:-data_structures rad validations p2p util config storage reputation}; do
  echo "== $c"
  (cd $c && timeout 800 cargo test --offline --no-fail-fast --lib --tests -- --test-threads=1 2>&1) | grep -E "^    [a-z0-9_:]+$|^test result|^error" | sort -u
done

#!/bin/bash
# Builds the harness, and dune from /repo's current working tree, into /verif/harness/target.
# Cargo goes by modification times, which a restored or copied tree may not change; so the
# fingerprints of everything that compiles /repo's sources are dropped when their content differs
# from what the last build saw.
set -u
cd "$(dirname "$0")/harness" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable}
export CARGO_HOME=${CARGO_HOME:-/root/.cargo}
unset CARGO_TARGET_DIR RUSTFLAGS
mkdir -p target
exec 9>target/.build-lock
flock 9
sum=$( { find /repo/src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum /repo/Cargo.toml; } | sha256sum | cut -d' ' -f1)
if [ "$(cat target/.repo-sum 2>/dev/null)" != "$sum" ]; then
    rm -rf target/debug/.fingerprint/dune-* target/debug/.fingerprint/dunebin-* target/debug/.fingerprint/dunecheck-*
    rm -f target/.repo-sum
fi
log=target/build.log
if ! cargo build --offline --workspace --bins > "$log" 2>&1; then
    cat "$log"
    echo "BUILD FAILED"
    exit 2
fi
echo "$sum" > target/.repo-sum

#!/bin/bash
# Builds the checks and the program from /repo's current tree into /verif/target.
set -e
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/bin:/usr/bin:/bin:$HOME/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS= RUST_BACKTRACE=0
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET
mkdir -p "$here/target"
exec 9>"$here/target/.lock"
flock 9
# cargo goes by modification times; contents count here
now=$( (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum; cd "$here/harness" && find . -type f -print0 | sort -z | xargs -0 sha256sum) 2>/dev/null | sha256sum)
if [ "$now" != "$(cat "$here/target/.sources" 2>/dev/null)" ] || [ ! -x "$here/target/release/pv" ] || [ ! -x "$here/target/cli/debug/post" ]; then
    rm -rf "$here"/target/release/.fingerprint/{sim,pv}-* "$here"/target/cli/debug/.fingerprint/{sim,post}-*
    rm -f "$here/target/.sources"
    [ -f /repo/Cargo.lock ] || cp /opt/vp/Cargo.lock /repo/Cargo.lock
    cargo build --release --offline --manifest-path "$here/harness/Cargo.toml" --target-dir "$here/target" >"$here/target/build.log" 2>&1 || { tail -40 "$here/target/build.log" >&2; exit 2; }
    cargo build --offline --manifest-path /repo/Cargo.toml -p post --target-dir "$here/target/cli" >"$here/target/build-cli.log" 2>&1 || { tail -40 "$here/target/build-cli.log" >&2; exit 2; }
    echo "$now" > "$here/target/.sources"
fi

#!/bin/bash
# Builds /repo's interface modules in a scratch crate together with demo.rs, and runs that.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
cp -r "$D/cansi" "$D/crossterm" "$D/Cargo.toml" "$T/" && mkdir -p "$T/src" || exit 2
[ -f "$D/Cargo.lock" ] && cp "$D/Cargo.lock" "$T/"
cp "$D/main.rs" "$T/src/" && cp -r "$R/ogma-shell/interface" "$T/src/interface" && cp "$D/demo.rs" "$T/src/interface/" || exit 2
printf '\npub mod demo;\n' >> "$T/src/interface/mod.rs"
cd "$T" || exit 2
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTC_WRAPPER= RUSTFLAGS=
cargo build --offline -q 2>"$T/err" || { cat "$T/err"; exit 2; }
timeout 120 "$T/target/debug/demo"

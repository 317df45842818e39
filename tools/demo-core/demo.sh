#!/bin/bash
# Builds /repo's crates natively with small stand-ins for the crates which are not installed, together
# with demo.rs, and runs that in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
cp -r "$D/shims" "$D/crates" "$D/Cargo.toml" "$D/Cargo.lock" "$T/" || exit 2
if [ -f "$D/demo.py" ]; then
  rm -r "$T/crates/demo"; P="-p ogma-cli"
else
  mkdir -p "$T/crates/demo/src" && cat "$D/prelude.rs" "$D/demo.rs" > "$T/crates/demo/src/main.rs" || exit 2
  rm -r "$T/crates/cli" "$T/crates/ogma-shell"; P="-p demo"
fi
sed -i "s#@REPO@#$R#" "$T"/crates/*/Cargo.toml || exit 2
cd "$T" || exit 2
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTC_WRAPPER= RUSTFLAGS=-Awarnings
cargo build --offline -q $P 2>"$T/err" || { cat "$T/err"; exit 2; }
mkdir "$T/work" && cd "$T/work" || exit 2
export OGMA_CLI="$T/target/debug/ogma-cli"
if [ -f "$D/demo.py" ]; then
  cat "$D/prelude.py" "$D/demo.py" > "$T/main.py"
  timeout 120 python3 -B "$T/main.py"
else
  timeout 120 "$T/target/debug/demo"
fi

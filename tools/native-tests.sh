#!/bin/bash
# Runs the repository's own tests that its offline build cannot (they need crates which are not
# installed) natively against the stand-ins of sim/shims. A development aid; three doc examples
# fail because of the stand-ins. Usage: native-tests.sh [scratch-dir]
set -e
R=${1:-/tmp/rt}
mkdir -p "$R"
rm -rf "${R:?}/sim"
rsync -a --exclude target --exclude vp-ui --exclude vp-comp --exclude vp-core --exclude vp-ls --exclude vp-shell --exclude vp-cli --exclude kit /verif/sim/ "$R/sim/"
cd "$R/sim"
cat >> crates/ogma/Cargo.toml <<T
[[test]]
name = "t-commands"
path = "/repo/ogma/tests/commands/mod.rs"
[[test]]
name = "t-doc-examples"
path = "/repo/ogma/tests/doc-examples.rs"
[[test]]
name = "t-batch-files"
path = "/repo/ogma/tests/batch-files.rs"
T
cp -r /repo/ogma/ls-test /repo/ogma/partitions-structure-tests /repo/ogma/tests crates/ogma/
cp -r /repo/docs .
unset RUSTFLAGS RUSTC_WRAPPER
export RUSTC_BOOTSTRAP=1 CARGO_TARGET_DIR="$R/target"
cargo test --offline -p ogma --test t-commands --test t-doc-examples --test t-batch-files --no-fail-fast 2>&1 | grep -E "^test .*FAILED|test result|^error" || true
cargo test --offline -p ogma-ls -p ogma-shell --lib --no-fail-fast 2>&1 | grep -E "^test .*FAILED|test result|^error" || true

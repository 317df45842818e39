# Build settings of the simulated program (sourced by vp.sh).
export RUSTC_BOOTSTRAP=1
export RUSTC_WRAPPER=/verif/sim/rustc-wrap.sh
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=${CARGO_TARGET_DIR:-/verif/sim/target}
export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Zshare-generics=no -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0"

#!/bin/bash
# RUSTC_WRAPPER: the simulator runtime itself must not be instrumented (it implements
# the __tsan_* entry points), everything else compiled for the target is.
rustc="$1"; shift
prev=""; name=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
if [ "$name" = "simrt" ]; then
  args=()
  for a in "$@"; do
    case "$a" in
      -Zsanitizer=thread|-Zexternal-clangrt|-Cllvm-args=-tsan*) ;;
      *) args+=("$a") ;;
    esac
  done
  exec "$rustc" "${args[@]}"
fi
exec "$rustc" "$@"

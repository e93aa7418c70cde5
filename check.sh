#!/bin/bash
# check.sh <ID>: rebuilds the monitor of one property against /repo's current tree and runs it.
#   exit 0 the property held on everything explored; exit 1 VIOLATION; anything else: the check itself failed.
#   check.sh <ID> --replay <file|case> runs one case again, printing its steps.
set -u
ID="$1"; shift
ROOT="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$ROOT" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
bin="$(echo "$ID" | tr 'A-Z' 'a-z')"
cd "$ROOT/harness" || exit 2
mkdir -p "$ROOT/evidence"
build() { # toolchain, target dir, extra args...
  local tc="$1" td="$2"; shift 2
  local log; log="$(mktemp)"
  if ! CARGO_TARGET_DIR="$td" cargo "+$tc" build --offline --release -q --bin "$bin" "$@" >"$log" 2>&1; then
    echo "$ID: the harness does not build against /repo:"; tail -40 "$log"; rm -f "$log"; exit 2
  fi
  rm -f "$log"
}
case "$ID" in
  C23)
    export ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=1:handle_abort=0:disable_coredump=1"
    export RUSTFLAGS="-Zsanitizer=address"
    build nightly "$ROOT/harness/target-asan" --target x86_64-unknown-linux-gnu
    unset RUSTFLAGS
    exec "$ROOT/harness/target-asan/x86_64-unknown-linux-gnu/release/$bin" "$@" ;;
  C24)
    export TSAN_OPTIONS="halt_on_error=1:abort_on_error=1:disable_coredump=1:report_signal_unsafe=0:history_size=4:detect_deadlocks=0"
    export RUSTFLAGS="-Zsanitizer=thread"
    build nightly "$ROOT/harness/target-tsan" --target x86_64-unknown-linux-gnu -Zbuild-std
    unset RUSTFLAGS
    exec "$ROOT/harness/target-tsan/x86_64-unknown-linux-gnu/release/$bin" "$@" ;;
  C22)
    build stable "$ROOT/harness/target" --features ldbc
    exec "$ROOT/harness/target/release/$bin" "$@" ;;
  *)
    build stable "$ROOT/harness/target"
    exec "$ROOT/harness/target/release/$bin" "$@" ;;
esac

#!/bin/bash
# run.sh <ID> quick|thorough : build the harness crate of one property from /repo's working tree, run it.
ROOT="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$ROOT"
export HOME=/root PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=nightly-2026-03-10 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
export CARGO_INCREMENTAL=0
unset RUSTFLAGS RUST_LOG CARGO_BUILD_TARGET
export CARGO_TARGET_DIR="${MC_TARGET_DIR:-$ROOT/harness/target}"
case "$1" in
  P*) crate=mc-parser ;;
  C*) crate=mc-crond ;;
  U*) crate=mc-uri ;;
  H*) crate=mc-hocon ;;
  T*) crate=mc-toys ;;
  *) echo "usage: $0 <ID> quick|thorough" >&2; exit 64 ;;
esac
cd "$ROOT/harness" || exit 70
# Whether to rebuild is decided by what the sources say, not by when their files were written.
mkdir -p "$CARGO_TARGET_DIR" && exec 8>"$CARGO_TARGET_DIR/mc-lock" && flock 8
sum="$(find /repo -name target -prune -o -name .git -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)"
mark="$CARGO_TARGET_DIR/sources-of-$crate"
if [ "$(cat "$mark" 2>/dev/null)" != "$sum" ]; then
  rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/oni-comb-* "$CARGO_TARGET_DIR"/release/.fingerprint/mc-*
fi
if ! cargo build --release --offline --locked -q -p "$crate" >/tmp/mc-build-$$.log 2>&1; then
  grep -E '^error' -A8 /tmp/mc-build-$$.log | head -60 >&2
  rm -f /tmp/mc-build-$$.log
  echo "build of $crate against /repo failed" >&2
  exit 70
fi
rm -f /tmp/mc-build-$$.log
echo "$sum" > "$mark"
exec 8>&-
exec "$CARGO_TARGET_DIR/release/$crate" "$1" "${2:-quick}"

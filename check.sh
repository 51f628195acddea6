#!/bin/bash
# usage: check.sh <property id> [quick|thorough]   -- builds from /repo's working tree, runs the check
#        check.sh build                            -- only builds
# exit 0: held; 1: VIOLATION line printed; 2: the check could not give an answer
export PATH=/root/.cargo/bin:$PATH HOME=${HOME:-/root}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
here=$(cd "$(dirname "$0")" && pwd)
export RUSTC_WRAPPER=$here/tools/rustc-cov.sh
export CARGO_TARGET_DIR=$here/target RUSTFLAGS=-Awarnings
mkdir -p "$CARGO_TARGET_DIR" || exit 2
(
  flock 9
  # cargo trusts modification times; a tree that was swapped under us is told apart by content
  now=$(find /repo/Cargo.toml /repo/svd-rs /repo/svd-parser /repo/svd-encoder "$here/harness/src" "$here/harness/Cargo.toml" "$RUSTC_WRAPPER" \
          -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  old=$(cat "$CARGO_TARGET_DIR/stamp" 2>/dev/null)
  cd "$here/harness" || exit 2
  if [ "$now" != "$old" ] || [ ! -x "$CARGO_TARGET_DIR/release/harness" ]; then
    rm -f "$CARGO_TARGET_DIR/stamp"
    cargo clean --offline --release -p svd-rs -p svd-parser -p svd-encoder -p harness >/dev/null 2>&1
    cargo build --offline --locked --release >"$CARGO_TARGET_DIR/build.log" 2>&1 || { tail -n 60 "$CARGO_TARGET_DIR/build.log" >&2; exit 2; }
    echo "$now" >"$CARGO_TARGET_DIR/stamp"
  fi
) 9>"$CARGO_TARGET_DIR/lock" || { echo "the harness does not build against /repo" >&2; exit 2; }
[ "$1" = build ] && exit 0
tier=${2:-${VERIF_TIER:-quick}}
exec "$CARGO_TARGET_DIR/release/harness" check "$1" --tier "$tier" --seed "${VERIF_SEED:-1}" --verif "$here"

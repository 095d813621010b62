#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuild the monitors against /repo's current tree, run one.
here=$(cd "$(dirname "$0")" && pwd)
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export RMON_ROOT="$here"
unset RUSTFLAGS CARGO_TARGET_DIR RUST_LOG
mkdir -p "$here/target" "$here/evidence/replay"
sum=$(cd /repo && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
# build NAME CRATE TARGET-DIR RUSTFLAGS TOOLCHAIN CARGO-ARGS...
build() {
  local name=$1 crate=$2 dir=$here/$3 flags=$4 chain=$5
  shift 5
  # cargo goes by modification times, which a copied tree may have lost: go by contents
  if [ "$sum" != "$(cat "$here/target/$name.sum" 2>/dev/null)" ]; then
    rm -f "$here/target/$name.sum"
    [ -d "$dir" ] && find "$dir" -type d -path '*/.fingerprint/ressa-*' -prune -exec rm -r {} +
  fi
  (
    cd "$here/$crate" || exit 2
    [ -n "$flags" ] && export RUSTFLAGS=$flags
    CARGO_TARGET_DIR=$dir RUSTUP_TOOLCHAIN=$chain cargo build --offline "$@"
  ) >"$here/target/$name.log" 2>&1 && echo "$sum" >"$here/target/$name.sum"
}
fail() {
  tail -40 "$here/target/$1.log"
  echo "ERROR: the monitors do not build against /repo"
  exit 2
}
build rmon harness target "" stable --release --bin rmon || fail rmon
if [ "$1" = C19 ] || [ "$1" = build ]; then
  build debug variants target/variants "" stable --features debug_look_ahead || fail debug
  build plain variants target/variants "" stable --release || fail plain
  build asan variants target/asan -Zsanitizer=address nightly --release --target x86_64-unknown-linux-gnu ||
    echo "(no build with the address sanitizer here)"
fi
[ "$1" = build ] && exit 0
rm -f "$here"/evidence/replay/"$1"-*
exec "$here/target/release/rmon" check "$1" "${2:-quick}"

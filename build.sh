# sourced by check.sh and setup.sh: build_area AREA
export HOME=${HOME:-/root} PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="$VERIF_DIR/target"
# lints are silenced
export RUSTFLAGS="--cap-lints allow"
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS

build_area() {
  local area=$1 stamp sum log rc
  mkdir -p "$CARGO_TARGET_DIR"
  stamp="$CARGO_TARGET_DIR/stamp-$area"
  # cargo looks at file times; copies and checkouts can carry old ones, so compare contents too
  sum=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
  if [ -f "$stamp" ] && [ "$(cat "$stamp")" != "$sum" ]; then
    (cd "$VERIF_DIR/harness/$area" && for p in rac vru-noise vru-kyber vru-session vru-udp vru-tcp "chk-$area"; do
      cargo clean --offline -p "$p" >/dev/null 2>&1
    done)
  fi
  if [ "$area" = node ]; then
    build_node "$stamp" "$sum" || return 1
  fi
  rm -f "$stamp"
  log=$(cd "$VERIF_DIR/harness/$area" && cargo build --offline --locked 2>&1)
  rc=$?
  if [ $rc -ne 0 ]; then
    echo "$log" | tail -n 60 >&2
    return 1
  fi
  echo "$sum" > "$stamp"
}

# the real programs, and what kills them from within
build_node() {
  local stamp=$1 sum=$2 dir="$CARGO_TARGET_DIR/node-bins" log
  mkdir -p "$dir"
  (
    export CARGO_TARGET_DIR="$dir" CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
    if [ -f "$stamp" ] && [ "$(cat "$stamp")" != "$sum" ]; then
      for p in rac vru-noise vru-kyber vru-session vru-udp vru-tcp vru-processor vru-node; do
        cargo clean --offline --manifest-path /repo/Cargo.toml -p "$p" >/dev/null 2>&1
      done
    fi
    if ! log=$(cargo build --offline --manifest-path /repo/Cargo.toml -p vru-node --bins 2>&1); then
      echo "$log" | tail -n 60 >&2
      exit 1
    fi
    gcc -O1 -fPIC -shared -o "$dir/crash.so" "$VERIF_DIR/harness/node/src/crash.c" -ldl >&2 || exit 1
  )
}

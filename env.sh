# Common settings of all commands. Everything is built under /verif/target.
export PATH="$HOME/.cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
export CARGO_INCREMENTAL=0
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO_DIR=/repo
VT="$VERIF_DIR/target"
HOOKS="--cfg dumpster_verif"

# Cargo decides by timestamps whether to rebuild; the contents of /repo decide here.
# usage: fresh <target dir> <manifest dir>: forget the built library if its sources changed
fresh() {
  local sum stamp="$1/source.sum"
  sum=$(cd "$REPO_DIR" && find Cargo.toml dumpster dumpster_derive -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  mkdir -p "$1"
  if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
    if [ -f "$stamp" ]; then
      (cd "$2" && CARGO_TARGET_DIR="$1" cargo $3 clean --offline --release -p dumpster -p dumpster_derive >/dev/null 2>&1)
      (cd "$2" && CARGO_TARGET_DIR="$1" cargo $3 clean --offline -p dumpster -p dumpster_derive >/dev/null 2>&1)
    fi
    echo "$sum" > "$stamp"
  fi
}

build_main() {
  fresh "$VT/main" "$VERIF_DIR/harness" ""
  (cd "$VERIF_DIR/harness" && CARGO_TARGET_DIR="$VT/main" RUSTFLAGS="$HOOKS" cargo build --release --offline --locked -q 2> "$VT/main/build.log") ||
    { tail -40 "$VT/main/build.log" >&2; echo "error: the harness does not build against $REPO_DIR" >&2; return 1; }
}

# with the feature coerce-unsized, which needs nightly
build_unsized() {
  fresh "$VT/unsized" "$VERIF_DIR/harness" "+nightly"
  (cd "$VERIF_DIR/harness" && CARGO_TARGET_DIR="$VT/unsized" RUSTFLAGS="$HOOKS" cargo +nightly build --release --offline --locked -q --features unsized 2> "$VT/unsized/build.log") ||
    { tail -40 "$VT/unsized/build.log" >&2; echo "error: the harness does not build against $REPO_DIR with coerce-unsized" >&2; return 1; }
}

# the library as generated programs see it: no hooks, debug build
build_gen() {
  fresh "$VT/gen" "$VERIF_DIR/gen" ""
  (cd "$VERIF_DIR/gen" && CARGO_TARGET_DIR="$VT/gen" cargo build --offline --locked -q --message-format=json > "$VT/gen/build.json" 2> "$VT/gen/build.log") ||
    { tail -40 "$VT/gen/build.log" >&2; echo "error: $REPO_DIR does not build" >&2; return 1; }
  export VH_WORK="$VT/gen/work"
  export VH_RLIB=$(grep '"name":"dumpster"' "$VT/gen/build.json" | grep -o '"[^"]*/libdumpster-[^"]*\.rlib"' | head -1 | tr -d '"')
  [ -f "$VH_RLIB" ] || { echo "error: the built library was not found" >&2; return 1; }
  rm -rf "$VT/gen/work"
  mkdir -p "$VH_WORK"
}

#!/bin/bash
# usage: check.sh <property>   (VERIF_SEED, VERIF_TIER from the environment)
# Rebuilds the harness from /repo's working tree and decides one property.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
set -u
cd "$VERIF_DIR" || exit 2
mkdir -p evidence "$VT"
exec 9> "$VT/lock"
flock 9
prop=$1
bin="$VT/main/release/vh"
case $prop in
  C19) build_unsized || exit 2; bin="$VT/unsized/release/vh" ;;
  C10 | C18) build_gen && build_main || exit 2 ;;
  *) build_main || exit 2 ;;
esac
exec "$bin" check "$prop" "$VERIF_DIR/evidence/$prop.json" "$VERIF_DIR/replays"

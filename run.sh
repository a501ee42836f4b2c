#!/bin/bash
# run.sh PROPERTY [ksusim check options]: build the simulator with /repo's working tree, run one check
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
prop=$1; shift
case $prop in
  C09|C10|C18|buildverify) build=verify; feat=(--features verify) ;;
  *) build=base; feat=() ;;
esac
target=${KSUSIM_TARGET:-$PWD/target}/$build
log=$(CARGO_TARGET_DIR=$target cargo build --offline --manifest-path sim/Cargo.toml "${feat[@]}" 2>&1) || {
  echo "$log" >&2
  echo "the simulator does not build" >&2
  exit 2
}
case $prop in build*) exit 0 ;; esac
exec "$target/debug/ksusim" check --prop "$prop" "$@"

#!/bin/bash
# check.sh ID [args]: builds the check of one property against /repo's working tree and runs it
# (VERIF_SEED, VERIF_TIER). 'check.sh ID --replay FILE' runs one recorded case again.
cd "$(dirname "$0")" || exit 2
id=${1:?property id}; shift
bin=$(echo "$id" | tr A-Z a-z)
export VERIF_DIR=$PWD RUST_BACKTRACE=0
feat=()
case $bin in
  c05|c06) feat=(--features decode) ;;
esac
cargo build -q --offline --manifest-path harness/Cargo.toml --bin "$bin" "${feat[@]}" >&2 || { echo "CHECK-ERROR property=$id: build failed"; exit 2; }
exec "harness/target/debug/$bin" "$@"

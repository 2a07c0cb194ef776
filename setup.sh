#!/bin/sh
# Builds the simulator once, offline.
cd "$(dirname "$0")/sim" || exit 2
mkdir -p /verif/target /verif/evidence /verif/out
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
cargo build --offline || exit 1
/verif/target/debug/indrasim selftest --n 4 || exit 1

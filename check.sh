#!/bin/sh
# check.sh PROPERTY [quick|thorough]: builds the simulator from /repo's working
# tree and runs the property's check.
cd "$(dirname "$0")/sim" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
if ! cargo build --offline >/verif/target/build.$1.log 2>&1; then
  grep -E "^(error|warning: unused)" -A6 "/verif/target/build.$1.log" | head -40
  echo "the simulator does not build"
  exit 2
fi
exec /verif/target/debug/indrasim check --prop "$1" --tier "${2:-quick}" --verif /verif

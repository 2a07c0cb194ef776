#!/bin/bash
# Adds basic-block callbacks (the simulator's preemption points and coverage)
# to the crates of the system under test, and to nothing else.
rustc="$1"; shift
name=""
prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
case "$name" in
  indradb|indradb_proto|indradb_plugin_host|sut|servermain|threadpool|simplug|indradb_plugin_hello_world|indradb_plugin_naive_vertex_count)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
  *) exec "$rustc" "$@" ;;
esac

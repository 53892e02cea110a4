#!/bin/bash
# check.sh <property>: rebuild from the repository's working tree, run the monitors of one property.
cd "$(dirname "$0")" || exit 2
. ./build.sh
build_chaos && build_mon && build_server || { echo "build failed" >&2; exit 2; }
export VERIF_ROOT="$V"
case "$1" in C20|C21) exec node "$V/sdk/run.mjs" "$@" ;; esac
exec "$V/target/mon/release/nexo-mon" "$@"

#!/bin/sh
# check.sh PROPERTY quick|thorough [more options of mc]
# Rebuilds the checker from /repo's working tree and explores the property's scenarios.
# Exit: 0 held, 1 violated (a VIOLATION line was printed), 2 the check itself failed.
cd "$(dirname "$0")" || exit 2
prop=$1; tier=${2:-quick}; shift; [ $# -gt 0 ] && shift
[ -n "$prop" ] || { echo "usage: check.sh PROPERTY quick|thorough"; exit 2; }
mkdir -p evidence replays
./build.sh || { echo "check $prop: building the checker failed"; exit 2; }
out=$(pwd)/replays/$prop-$tier.$$
mkdir -p "$out"
./mc/target/debug/mc "$prop" --tier "$tier" --out "$out" --evidence "$(pwd)/evidence/$prop.json" --known "$(pwd)/known-findings.txt" "$@"
rc=$?
[ $rc -eq 0 ] && rm -rf "$out"
exit $rc

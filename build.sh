#!/bin/sh
# Builds the checker, with the program under test taken from /repo/src as it is now.
cd "$(dirname "$0")/mc" || exit 2
PIZAUTH_SRC_HASH=$(find /repo/src/ -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)
export PIZAUTH_SRC_HASH
mkdir -p target
log=target/build.$$.log
if flock target/.lock cargo build --offline --quiet >"$log" 2>&1; then
    rm -f "$log"
else
    cat "$log"; rm -f "$log"; exit 2
fi

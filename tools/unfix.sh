#!/bin/bash
# Usage: unfix.sh COMMIT PROP...: do the checks report what a fix repaired? (Reverts it in /repo for the time being.)
c=$1; shift
git -C /repo revert -n "$c" || { git -C /repo revert --abort; git -C /repo reset -q --hard; exit 2; }
git -C /repo reset -q
for p in "$@"; do (cd /verif && ./check.sh $p quick >/tmp/unfix.log 2>&1; echo "$c $p exit $?"; grep -A1 ^VIOLATION /tmp/unfix.log | head -4 | cut -c1-400); done
git -C /repo checkout -q -- .; git -C /repo revert --quit 2>/dev/null
git -C /repo status --short

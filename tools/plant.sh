#!/bin/bash
# plant.sh ID: validates seeded/ID in a scratch copy of /repo: the patch applies, builds, the stable tests pass,
# the demonstration passes without it and fails with it.
set -u
id=$1; d=/verif/seeded/$id; w=/tmp/plant
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
if [ ! -d $w ]; then mkdir $w; cp -a /repo/. $w/; fi
cd $w && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git checkout -q -- . || exit 2
cargo build --offline -q 2>/dev/null || { echo "$id: base does not build"; exit 2; }
mkdir -p /tmp/plantdemo && rm -rf /tmp/plantdemo/x && cp -r $d /tmp/plantdemo/x
timeout 300 bash /tmp/plantdemo/x/demo.sh >/tmp/plant.base 2>&1; b=$?
git apply $d/patch.diff || { echo "$id: does not apply"; exit 2; }
cargo build --offline -q 2>/tmp/plant.err || { echo "$id: does not build"; tail -40 /tmp/plant.err; git checkout -q -- .; exit 2; }
cargo test --offline --workspace --no-fail-fast -- --test-threads 8 >/tmp/plant.test 2>&1; t=$?
timeout 300 bash /tmp/plantdemo/x/demo.sh >/tmp/plant.out 2>&1; p=$?
git checkout -q -- .
echo "$id: base=$b tests=$t patched=$p $(tail -1 /tmp/plant.out)"
[ $b -ne 0 ] && cat /tmp/plant.base
[ $b -eq 0 ] && [ $t -eq 0 ] && [ $p -ne 0 ]

#!/bin/bash
# check.sh ID  -- builds the monitor of one property against /repo's working
# tree and runs it.  Exit 0: held on everything explored; 1: VIOLATION line.
set -u
id=$1; shift
bin=$(echo "$id" | tr 'A-Z' 'a-z')
root=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$root/harness/target" NVERIF_ROOT="$root"
unset RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
mkdir -p "$root/evidence" "$root/replays"
log="$root/harness/target/build-$bin.log"
mkdir -p "$root/harness/target"
cd "$root/harness" || exit 2
if [ "$id" = C20 ]; then
    ulimit -c 0
    exec python3 "$root/tools/c20.py"
fi
# the monitor is built twice: with every assertion and overflow check on, and
# the way users ship the library (optimised, none of them compiled in)
cargo +stable build --offline --profile ship --bin "$bin" >"$log.ship" 2>&1 &
ship=$!
if ! cargo +stable build --offline --bin "$bin" >"$log" 2>&1; then
    kill $ship 2>/dev/null
    tail -40 "$log"
    if [ "$id" = C19 -o "$id" = C28 ] && grep -Eq "cannot be (sent|shared) between threads safely" "$log"; then
        # what was shareable is not: the compiler is the one to observe it
        cp "$log" "$root/replays/$id-unshareable.log"
        echo "VIOLATION property=$id replay=$root/replays/$id-unshareable.log"
        exit 1
    fi
    echo "BUILD ERROR: the monitor of $id does not build"
    exit 2
fi
if ! wait $ship; then
    tail -40 "$log.ship"
    echo "BUILD ERROR: the monitor of $id does not build as shipped"
    exit 2
fi
ulimit -c 0
# a runaway allocation ends in an abort of the monitored process, not in an
# exhausted machine
ulimit -Sv 20000000
[ $# = 0 ] || exec "$CARGO_TARGET_DIR/debug/$bin" "$@"
"$CARGO_TARGET_DIR/debug/$bin" || exit $?
seed=$((${VERIF_SEED:-1} + 1000003))
VERIF_SEED=$seed NVERIF_SHARE=40 NVERIF_EVIDENCE="$root/harness/target/ship-evidence" \
    "$CARGO_TARGET_DIR/ship/$bin"
rc=$?
python3 "$root/tools/merge_ship.py" "$id" "$seed" || exit 2
[ $rc = 0 ] || exit $rc
if [ "$id" = C19 ]; then
    # the same workload in the interpreter: data races, undefined behaviour
    ulimit -v unlimited 2>/dev/null
    exec python3 "$root/tools/miri_c19.py"
fi
exit 0

#!/bin/bash
# Usage: check.sh ID [--replay FILE]. Builds the model checker from /repo's working tree, then checks one property.
# Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Anything else: no answer.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
export CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cfg steit_mc -Awarnings"
id=$1
shift
rm -f "$VERIF_DIR/evidence/$id.json"
log=$(mktemp)
case $id in
C20) exec python3 "$VERIF_DIR/derive/check.py" "$@" ;;
C21 | C22) crate=meta ;;
*) crate=mc ;;
esac
if ! (cd $crate && cargo build --release --offline) >"$log" 2>&1; then
    tail -40 "$log" >&2
    rm -f "$log"
    echo "$id: the model checker doesn't build" >&2
    exit 2
fi
rm -f "$log"
mc=$VERIF_DIR/$crate/target/release/$crate
"$mc" "$id" "$@"
rc=$?
case $rc in
0 | 1 | 2 | 3 | 101) exit $rc ;;
esac
# Killed by a signal, e.g. a stack overflow: find out which case does that.
[ $# -eq 0 ] || { echo "VIOLATION property=$id replay=$2"; exit 1; }
trace=$(mktemp -d)
MC_TRACE=$trace "$mc" "$id"
for case in "$trace"/*.json; do
    [ -e "$case" ] || break
    "$mc" "$id" --replay "$case" >/dev/null 2>&1
    if [ $? -gt 128 ]; then
        mkdir -p "$VERIF_DIR/replays"
        cp "$case" "$VERIF_DIR/replays/$id.json"
        rm -rf "$trace"
        echo "VIOLATION property=$id replay=$VERIF_DIR/replays/$id.json"
        exit 1
    fi
done
rm -rf "$trace"
echo "$id: ended with $rc" >&2
exit 2

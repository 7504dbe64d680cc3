#!/bin/bash
# check.sh <property> [harness options]: build the harness with /repo's working tree, run one property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
shift
export CARGO_NET_OFFLINE=true
# build.sh: one place that builds, also used by setup_cmd
what=
case $prop in C25 | C28) what=all ;; esac
log=$("$here/build.sh" $what 2>&1)
rc=$?
if [ $rc -ne 0 ]; then
    echo "$log" >&2
    echo "the harness doesn't build" >&2
    exit 2
fi
exec "$here/harness/target/release/vpbt" --prop "$prop" --verif "$here" "$@"

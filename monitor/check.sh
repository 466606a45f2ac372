#!/bin/bash
# check.sh PROPERTY [options of the monitor]: rebuilds against /repo's working tree, then runs.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
property=$1
shift
log=$(mktemp)
if ! cargo build --offline >"$log" 2>&1; then
    cat "$log"
    rm -f "$log"
    echo "$property: the monitor does not build against /repo"
    exit 2
fi
rm -f "$log"
exec ./target/debug/monitor --property "$property" "$@"

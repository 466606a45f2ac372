#!/bin/bash
# Builds the monitor and what it depends on, /repo's crates among it.
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
exec cargo build --offline

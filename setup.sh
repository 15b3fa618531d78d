#!/bin/bash
# Builds both flavours of the checker from the committed files, offline.
here=$(cd "$(dirname "$0")" && pwd)
"$here/check.sh" build || exit 2
if grep -q vmc_internals /repo/src/lib.rs; then
    RUN= "$here/check.sh" C30 --only '#build-only' >/dev/null || exit 2
fi
exit 0

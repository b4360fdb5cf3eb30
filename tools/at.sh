#!/bin/bash
# at.sh REV|PATCH PROP...: run checks against a scratch copy of /repo at a
# revision, or at HEAD with a patch applied (the registered checks use /repo).
set -e
W=$(mktemp -d /tmp/at.XXXXXX)
trap 'rm -rf "$W"' EXIT
if [ -f "$1" ]; then git -C /repo archive HEAD | tar x -C "$W"; (cd "$W" && git init -q && git apply "$(readlink -f "$OLDPWD/$1" 2>/dev/null || echo "$1")") || (cd "$W" && patch -p1 < "$1"); else git -C /repo archive "$1" | tar x -C "$W"; fi
shift
for p in "$@"; do VT_REPO="$W" python3 /verif/run.py "$p" || true; done

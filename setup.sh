#!/bin/bash
# Warms the build cache (every check also builds by itself).
. "$(dirname "$0")/env.sh"
mkdir -p "$VERIF_ROOT/evidence"
scratch=$(mktemp -d /tmp/vdsmc.XXXXXX) || exit 1
trap 'rm -rf "$scratch"' EXIT
cd "$VERIF_ROOT/mc" || exit 1
for d in cmd/*/; do
    b=$(basename "$d")
    if [ -x "./build-$b.sh" ]; then
        VERIF_SCRATCH="$scratch" VERIF_REPO=/repo VERIF_MODFILE="$VERIF_ROOT/mc/go.mod" "./build-$b.sh" "$scratch" || exit 1
    else
        go build -o "$scratch/$b" "./cmd/$b" || exit 1
    fi
done

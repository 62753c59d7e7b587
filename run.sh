#!/bin/bash
# run.sh BIN ID [ARGS...]: builds the check binary BIN against /repo's working
# tree in a scratch directory and runs property ID's check. VERIF_REPO names
# another tree to build from, and VERIF_EVIDENCE another evidence directory
# (used when trying planted changes in scratch copies).
. "$(dirname "$0")/env.sh"
bin=$1; id=$2; shift 2
scratch=$(mktemp -d /tmp/vdsmc.XXXXXX) || exit 2
fast=$(mktemp -d /dev/shm/vdsmc.XXXXXX 2>/dev/null) || fast=$scratch
trap 'rm -rf "$scratch" "$fast"' EXIT
export VERIF_FAST="$fast"
export VERIF_SCRATCH="$scratch"
export VERIF_REPO="${VERIF_REPO:-/repo}"
cd "$VERIF_ROOT/mc" || exit 2
sed -e "s|=> /repo|=> $VERIF_REPO|" -e "s|=> ../standin|=> $VERIF_ROOT/standin|" go.mod > "$scratch/go.mod"
cp go.sum "$scratch/go.sum"
export VERIF_MODFILE="$scratch/go.mod"
if [ -x "./build-$bin.sh" ]; then
    "./build-$bin.sh" "$scratch" || { echo "check could not be built"; exit 2; }
else
    go build -modfile="$VERIF_MODFILE" -o "$scratch/check" "./cmd/$bin" || { echo "check could not be built"; exit 2; }
fi
"$scratch/check" -id "$id" "$@"

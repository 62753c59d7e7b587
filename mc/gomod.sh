#!/bin/bash
# Regenerates go.mod/go.sum of this module from /repo's, offline.
cd "$(dirname "$0")"
{ echo "module verifmc"; echo; sed -e '1d' /repo/go.mod
cat <<'X'

require github.com/continusec/verifiabledatastructures v0.0.0

replace github.com/continusec/verifiabledatastructures => /repo

replace github.com/continusec/objecthash => ../standin/objecthash
X
} > go.mod
cp /repo/go.sum go.sum

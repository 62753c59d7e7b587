#!/bin/bash
# Builds a check binary under the controlled scheduler: rewrites the packages
# of the code under test (and of bbolt, whose locks matter too) so that their
# locks, channels, timers and goroutines are under its control.
# build-conc.sh SCRATCH
scratch=$1
set -e
R=github.com/continusec/verifiabledatastructures
(cd ../tools/instr && go build -o "$scratch/instr" .)
./mods.sh "$scratch"
"$scratch/instr" -dir . -modfile "$scratch/conc.mod" -out "$scratch/src" -sync $R -sync go.etcd.io/bbolt -atomics $R -skip $R/pb -skip $R/assets ./cmd/conc
# The race detector need not look into these.
off=(-gcflags=verifmc/vs=-race=false)
for p in crypto/... hash/... fmt strconv reflect unicode/... encoding/... internal/... sort slices github.com/continusec/objecthash verifmc/mck verifmc/ref; do
    off+=("-gcflags=$p=-race=false")
done
go build -race -gcflags=all=-d=checkptr=0 -modfile "$scratch/conc.mod" -overlay "$scratch/src/overlay.json" -ldflags=-checklinkname=0 "${off[@]}" -o "$scratch/check" ./cmd/conc

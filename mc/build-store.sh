#!/bin/bash
# Builds the storage checks: rewrites the storage packages and the storage
# engines so that their file operations go through verifmc/vfs.
# build-store.sh SCRATCH
scratch=$1
set -e
R=github.com/continusec/verifiabledatastructures
(cd ../tools/instr && go build -o "$scratch/instr" .)
./mods.sh "$scratch"
rm -rf "$scratch/srcf"
"$scratch/instr" -dir . -modfile "$scratch/conc.mod" -out "$scratch/srcf" -files $R -files go.etcd.io/bbolt -files github.com/dgraph-io/badger -skip $R/pb -skip $R/assets ./cmd/store
go build -modfile "$scratch/conc.mod" -overlay "$scratch/srcf/overlay.json" -ldflags=-checklinkname=0 -o "$scratch/check" ./cmd/store

#!/bin/bash
# mods.sh SCRATCH: makes a module file (SCRATCH/conc.mod) that uses scratch
# copies of the storage engines, for instrumentation. Badger's tables are made
# smaller, for speed only.
scratch=$1
set -e
cp "$VERIF_MODFILE" "$scratch/conc.mod"; cp go.sum "$scratch/conc.sum"
for m in go.etcd.io/bbolt github.com/dgraph-io/badger; do
    d=$scratch/$(basename $m)
    rm -rf "$d"
    cp -r "$(go list -modfile "$VERIF_MODFILE" -m -f '{{.Dir}}' $m)" "$d"
    chmod -R u+w "$d"
    echo "replace $m => $d" >> "$scratch/conc.mod"
done
sed -i -e 's/MaxTableSize: *64 << 20/MaxTableSize: 2 << 20/' -e 's/MaxCacheSize: *1 << 30/MaxCacheSize: 1 << 20/' "$scratch/badger/options.go"

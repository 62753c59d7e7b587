#!/bin/bash
# Builds the check binary and, from the code under test, the server program.
# build-server.sh SCRATCH
set -e
go build -modfile="$VERIF_MODFILE" -o "$1/vdbserver" github.com/continusec/verifiabledatastructures/cmd/vdbserver
go build -modfile="$VERIF_MODFILE" -o "$1/check" ./cmd/server

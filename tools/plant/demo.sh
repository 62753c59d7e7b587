#!/bin/bash
# Runs main.go (beside this file) against the repository in the current
# directory: exit 0 if the behaviour it looks at is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
for d in /opt/veriftools/go1.24.13/bin /opt/veriftools/go1.25.14/bin; do
    [ -x "$d/go" ] && PATH="$d:$PATH" && break
done
export PATH HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=1
export GOPATH="${GOPATH:-/root/go}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/demo" "$t/scratch"
cp "$here"/*.go "$t/demo/"
cp -r "$here/objecthash" "$t/objecthash"
{
    echo "module demo"
    sed 1d "$repo/go.mod"
    echo "require github.com/continusec/verifiabledatastructures v0.0.0"
    echo "replace github.com/continusec/verifiabledatastructures => $repo"
    echo "replace github.com/continusec/objecthash => $t/objecthash"
} > "$t/demo/go.mod"
cp "$repo/go.sum" "$t/demo/go.sum"
cd "$t/demo" || exit 3
go build -o "$t/prog" . || exit 3
cd "$t/scratch" && timeout 200 "$t/prog"

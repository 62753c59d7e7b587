# Toolchain settings for building the checks, offline.
for d in /opt/veriftools/go1.24.13/bin /opt/veriftools/go1.25.14/bin /opt/veriftools/go1.26.10/bin; do
    if [ -x "$d/go" ]; then PATH="$d:$PATH"; break; fi
done
export PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=1
export GOPATH="${GOPATH:-/root/go}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export VERIF_ROOT="${VERIF_ROOT:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}"

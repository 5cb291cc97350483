#!/bin/bash
# check.sh <property id>: builds the engine if needed and decides the property on /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
bash "$here/build.sh" || exit 2
# the go command works on copies of go.mod and go.sum: /repo's stay as they are
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
cp /repo/go.mod /repo/go.sum "$scratch/" || exit 2
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOFLAGS="-mod=mod -modfile=$scratch/go.mod" GOPROXY=off CGO_ENABLED=1
unset GOROOT GOWORK
"$here/engine/engine" "${2:-check}" "$1" "${@:3}"

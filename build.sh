#!/bin/bash
# builds the symbolic engine (offline, from committed sources)
cd "$(dirname "$0")/engine" || exit 2
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
unset GOROOT GOWORK
if [ -x engine ] && [ -z "$(find . -newer engine \( -name '*.go' -o -name go.mod \) -print -quit)" ]; then exit 0; fi
for g in go1.27 go /opt/veriftools/go1.27.3/bin/go; do
  if command -v $g >/dev/null && $g version | grep -q 'go1\.2[67]'; then GO=$g; break; fi
done
exec ${GO:-go} build -o engine .

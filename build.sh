#!/bin/bash
# Builds the analyzer from the committed sources, offline.
cd "$(dirname "$0")/analyzer" || exit 1
export HOME="${HOME:-/root}"
export PATH="$PATH:/usr/local/bin:/usr/bin:/bin"
unset GOROOT GOTOOLCHAIN
export GO111MODULE=on GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
mkdir -p ../bin ../evidence
exec go build -o ../bin/analyzer .

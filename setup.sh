#!/bin/bash
# Warms the build cache; every check builds the checker itself.
cd "$(dirname "$0")/checker" || exit 1
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
go build ./...

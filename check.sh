#!/bin/bash
# bash check.sh <property>: builds the checker if needed and decides one property.
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p bin evidence
tmp="bin/gtcheck.$$"
(cd checker && go build -o "../$tmp" ./cmd/gtcheck) || { echo "the checker does not build"; exit 2; }
"./$tmp" -prop "$1" -repo /repo -verif "$PWD"
rc=$?
rm -f "$PWD/$tmp"
exit $rc

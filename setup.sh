#!/bin/bash
# Warms the build cache (plain and -race) and shows that the harness compiles.
cd "$(dirname "$0")/harness" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly HOME=${HOME:-/root}
d=$(mktemp -d) || exit 1
go test -c -vet=off -o "$d/h.test" . && go test -c -vet=off -race -o "$d/hr.test" .
rc=$?
rm -rf "$d"
exit $rc

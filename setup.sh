#!/bin/bash
# Builds the monitors once, to warm the build cache. Every check builds again what it needs.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
cd "$here/harness" && go build -o /dev/null . && go build -race -o /dev/null . && go vet . 
cd "$here/reference" && go build -o /dev/null .
exit 0

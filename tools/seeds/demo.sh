#!/bin/bash
# Exit 0: the property holds. Runs in the repository's directory.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
repo=$(pwd)
printf '{"Replace": {"%s/zzdemo/kit_test.go": "%s/kit_test.go", "%s/zzdemo/demo_test.go": "%s/demo_test.go"}}' "$repo" "$here" "$repo" "$here" > "$tmp/o.json"
go test -vet=off @RACE@ -overlay "$tmp/o.json" -c -o "$tmp/demo" ./zzdemo || exit 3
@PRE@
cd "$tmp" && mkdir tmp && export TMPDIR="$tmp/tmp"
@RUN@

#!/bin/bash
# Usage: run.sh ID [quick|thorough]     Checks one property against the code in /repo.
# Exit 0: it held on everything explored. Exit 1: VIOLATION. Anything else: the check could not decide.
ID=$1
[ -n "$2" ] && export VERIF_TIER=$2
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
top=$(mktemp -d /tmp/verif-mon.XXXXXX) || exit 2
trap 'rm -rf "$top"' EXIT
chmod 755 "$top"
mkdir -p "$top/bin" "$top/scratch"
export MON_VERIF=$here MON_BIN=$top/bin MON_SCRATCH=$top/scratch

race=
case $ID in C18) race=-race; export GORACE="halt_on_error=0 log_path=$top/scratch/race";; esac
(cd "$here/harness" && go build $race -o "$top/bin/mon" .) || { echo "cannot build the harness"; exit 2; }
case $ID in C04|C18|C21|C25|C30|C31|C32|C33) (cd /repo && go build $race -o "$top/bin/client" .) || { echo "cannot build the client"; exit 2; };; esac
case $ID in C32|C33) (cd "$here/reference" && go build -o "$top/bin/old" .) || { echo "cannot build the earlier client"; exit 2; };; esac
case $ID in C16|C19) gcc -O1 -o "$top/bin/fscut" "$here/native/fscut.c" || { echo "cannot build fscut"; exit 2; };; esac
chmod 755 "$top/bin"/*
chown 65534:65534 "$top/scratch"
cd "$top" || exit 2
"$top/bin/mon" check "$ID"

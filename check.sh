#!/bin/bash
# Usage: check.sh PROPERTY [oracle=SECONDS]. Builds the verifier if needed and checks one property of /repo's current tree.
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
D=$(cd "$(dirname "$0")" && pwd)
export VF_VERIF=$D VF_CONTRACTS=$D/contracts
mkdir -p "$D/bin"
( cd "$D/verifier" && flock "$D/bin/.lock" go build -o "$D/bin/vf" . ) || { echo "the verifier does not build"; exit 2; }
[ "$1" = setup ] && exit 0
exec "$D/bin/vf" check "$@"

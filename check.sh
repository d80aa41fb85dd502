#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod CGO_ENABLED=0
bash "$here/setup.sh" || exit 2
exec "$here/bin/engine" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -verif "$here" -repo /repo

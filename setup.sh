#!/bin/bash
# Builds the checker from the committed sources, offline.
set -e
cd "$(dirname "$0")/engine"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod CGO_ENABLED=0
mkdir -p ../bin
exec go build -o ../bin/engine .

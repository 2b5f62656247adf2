#!/bin/bash
# setup.sh: builds the engine and the replay programs once, so that the build cache is warm.
cd "$(dirname "$0")" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=-mod=readonly
mkdir -p build evidence
(cd engine && go build -o /dev/null .) && (cd harness && go build -o /dev/null ./cmd/replay)

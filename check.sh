#!/bin/bash
# check.sh PROPERTY [quick|thorough] [engine flags]: decides one property of /repo's current tree.
# Exit 0: held on everything explored. 1: violated. 2: the check could not run.
cd "$(dirname "$0")" || exit 2
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
shift; [ $# -gt 0 ] && shift
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=-mod=readonly
mkdir -p build evidence
bin=$(mktemp build/engine.XXXXXX) || exit 2
trap 'rm -f "$bin"' EXIT
(cd engine && go build -o "../$bin" .) || { echo "check.sh: cannot build the engine"; exit 2; }
"$bin" -root "$PWD" -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" "$@"

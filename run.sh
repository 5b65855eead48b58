#!/bin/bash
# run.sh setup | check PROPERTY [quick|thorough] | replay FILE [trace] | gen PROPERTY SEED
cd "$(dirname "$0")" || exit 2
export GOROOT=/opt/veriftools/go1.25.14
export PATH=$GOROOT/bin:$PATH HOME=/root
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOENV=off
export VERIF_DIR=$PWD GOCACHE=$PWD/build/gocache
mkdir -p build
(cd cmd/vsim && go build -o ../../build/vsim .) || { echo "ERROR: cannot build vsim"; exit 2; }
if [ "$1" = check ] && [ -z "$3" ]; then set -- check "$2" "${VERIF_TIER:-quick}"; fi
exec build/vsim "$@"

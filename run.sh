#!/bin/bash
# run.sh PROPERTY TIER: build the engine and decide one property.
cd "$(dirname "$0")" || exit 0
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:$PATH GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
export VERIF_DIR="$PWD"
B=$(mktemp -d /tmp/gosymbin.XXXXXX)
trap '/bin/rm -rf "$B"' EXIT
( cd gosym && GOFLAGS=-mod=mod go build -o "$B/gosym" . ) || { echo "engine build failed"; exit 2; }
"$B/gosym" -prop "$1" -tier "${2:-quick}"

#!/bin/bash
# Build the engine once to warm the Go build cache; nothing is kept.
cd "$(dirname "$0")" || exit 1
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:$PATH GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
B=$(mktemp -d /tmp/gosymbin.XXXXXX)
trap '/bin/rm -rf "$B"' EXIT
( cd gosym && GOFLAGS=-mod=mod go build -o "$B/gosym" . ) && "$B/gosym" -list >/dev/null

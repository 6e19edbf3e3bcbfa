#!/bin/bash
# Warms the Go build cache (std, with and without -race) and builds the tools once.
cd "$(dirname "$0")" || exit 1
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
W=$(mktemp -d /tmp/vh.XXXXXX) || exit 1
trap 'rm -rf "$W"' EXIT
cp -r h "$W/h" && cd "$W/h" && go build -o "$W/inst" ./cmd/inst

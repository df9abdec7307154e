#!/bin/bash
# Warms the build cache; every check builds what it needs from /repo itself.
cd "$(dirname "$0")/mc" || exit 1
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
go build -o /dev/null ./cmd/... 2>&1 || go vet ./rep || exit 1
exit 0

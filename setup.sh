#!/bin/bash
# Builds the harness once (fills the Go build cache); every check builds it again.
root=$(cd "$(dirname "$0")" && pwd) || exit 3
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOSUMDB=off CGO_ENABLED=0
cd "$root/harness" && go build -o /dev/null .

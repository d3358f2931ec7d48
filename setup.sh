#!/bin/sh
# Warms the build cache for the harness; checks build what they need themselves.
cd "$(dirname "$0")/pbt" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off HOME="${HOME:-/root}"
for p in $(go list ./... 2>/dev/null); do go test -vet=off -c -o /dev/null "$p" >/dev/null 2>&1; done
exit 0

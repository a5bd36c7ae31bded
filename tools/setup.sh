#!/bin/sh
# Warms the build cache; checks build everything they need themselves.
cd "$(dirname "$0")/../harness" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on GOWORK=off
go test -c -vet=off -o /dev/null ./drv

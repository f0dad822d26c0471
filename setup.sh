#!/bin/bash
# Builds the driver and warms the build cache; every check rebuilds on its own.
cd "$(dirname "$0")" || exit 1
export PATH=/opt/veriftools/go1.27.3/bin:/opt/vp/gobin:$PATH
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off
go version && go build ./...

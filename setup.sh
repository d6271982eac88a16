#!/bin/bash
# Warms the build cache; every check rebuilds the driver from /repo anyway.
set -e
cd "$(dirname "$0")"
export HOME=/root PATH=/opt/veriftools/go1.24.13/bin:$PATH GOROOT=/opt/veriftools/go1.24.13 GOTOOLCHAIN=local \
  GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOWORK=off GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off
mkdir -p build evidence
(cd harness && go build -o ../build/driver ./cmd/driver)
java -version 2>/dev/null
echo setup ok

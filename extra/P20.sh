#!/bin/bash
# Builds the Go worker (P20) against the package in /repo and the library that build.sh compiled.
cd /verif/go || exit 2
D=/verif/target/go
mkdir -p $D/lib
cp -f /verif/target/mon/debug/deps/libdd_sds_go.a $D/lib/ || exit 2
export GOCACHE=$D/cache GOPATH=$D/path GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GO111MODULE=on CGO_ENABLED=1
export CGO_LDFLAGS="-L$D/lib -lm -ldl -lpthread"
if ! go build -race -ldflags "-X main.stamp=$(sha256sum $D/lib/libdd_sds_go.a | cut -c1-32)" -o $D/worker . >$D/build.log 2>&1; then
  head -40 $D/build.log
  echo "ERROR: the Go worker does not build"
  exit 2
fi
exit 0

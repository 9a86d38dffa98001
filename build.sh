#!/bin/bash
# builds the checker from /verif/engine into /verif/bin (ignored by git)
set -e
cd "$(dirname "$0")/engine"
mkdir -p ../bin
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build} HOME=${HOME:-/root}
go build -o ../bin/vfcheck .

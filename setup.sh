#!/bin/bash
# Builds the engine from the committed sources (offline).
set -e
cd "$(dirname "$0")"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off CGO_ENABLED=0
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOPATH=${GOPATH:-/root/go}
mkdir -p bin out evidence
cd engine
go build -o ../bin/engine .

#!/bin/bash
# Builds the analyser into /verif/bin. Offline: all modules are in the module cache.
set -e
cd "$(dirname "$0")/analyzer"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p ../bin
go build -o ../bin/check ./cmd/check

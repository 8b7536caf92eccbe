#!/bin/bash
# Build the analyser and run the given checks on /repo without evidence.
cd /verif/analyzer; export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
gofmt -w . && go vet ./... && go build -o /verif/bin/check ./cmd/check && /verif/bin/check -out "" "$@"

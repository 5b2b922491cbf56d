#!/bin/bash
# Builds the contract verifier (offline: golang.org/x/tools comes from the module cache).
set -e
cd "$(dirname "$0")/govc"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod
mkdir -p ../bin
go build -o ../bin/govc.tmp.$$ . && mv ../bin/govc.tmp.$$ ../bin/govc

#!/bin/bash
# Builds the symbolic executor from the committed sources (offline).
set -e
cd "$(dirname "$0")/engine"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
mkdir -p ../bin
go build -o ../bin/vengine .

#!/bin/bash
# Builds the engine into /verif/bin (offline).
cd "$(dirname "$0")/engine" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off
exec go build -o ../bin/vengine .

#!/bin/bash
# Builds the checker from the committed sources, offline.
cd "$(dirname "$0")/checker" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
mkdir -p ../bin
go build -o ../bin/ogdlcheck.$$ . && mv -f ../bin/ogdlcheck.$$ ../bin/ogdlcheck

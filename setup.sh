#!/bin/bash
# Builds the symbolic executor when it is missing or older than its sources.
cd "$(dirname "$0")/engine" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local
if [ -x bin/gosmt ] && [ -z "$(find . -name '*.go' -newer bin/gosmt -print -quit)" ]; then exit 0; fi
mkdir -p bin && go build -o bin/gosmt.$$ . && mv bin/gosmt.$$ bin/gosmt

#!/bin/bash
# check.sh PROPERTY quick|thorough: runs one check from /verif against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local
./setup.sh || exit 2
exec engine/bin/gosmt -harness "$PWD/harness" "$@"

#!/bin/bash
# build.sh: builds the analyzer (offline, from the module cache).
set -eu
cd "$(dirname "$0")/analyzer"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on
mkdir -p ../bin
go build -o ../bin/an.tmp.$$ .
mv ../bin/an.tmp.$$ ../bin/an

#!/bin/sh
# Builds the analyser from the vendored sources. No network.
set -e
cd "$(dirname "$0")/tool"
export GOFLAGS=-mod=vendor GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p ../bin
go build -o ../bin/tokcheck.new . && mv ../bin/tokcheck.new ../bin/tokcheck

#!/bin/bash
# Builds the checker from the committed files, offline.
set -e
cd "$(dirname "$0")"
export HOME="${HOME:-/root}" PATH="$PATH:/usr/local/bin:/usr/bin:/bin"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
mkdir -p bin evidence
cd checker
go build -o ../bin/rothkocheck.new ./cmd/rothkocheck
mv ../bin/rothkocheck.new ../bin/rothkocheck

#!/bin/bash
# Builds the symbolic executor and warms nothing else: every check rebuilds what it needs.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
mkdir -p evidence build
tools/goamqp.sh || exit 2
cd engine && go build -o ../build/gosymx .

#!/bin/bash
# run.sh quick|thorough ID: build the symbolic executor and decide property ID on /repo's working tree.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local VERIF_DIR="$PWD"
mkdir -p evidence build
tools/goamqp.sh || exit 2
(cd engine && go build -o ../build/gosymx .) || exit 2
exec build/gosymx check "$1" "$2"

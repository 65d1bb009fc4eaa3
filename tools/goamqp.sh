#!/bin/bash
# Makes build/goamqp: the go-amqp version /repo uses, with connections, sessions and links replaced by harness/goamqp.
set -e
cd "$(dirname "$0")/.."
src=$(cd /repo && GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off go list -m -f '{{.Dir}}' github.com/Azure/go-amqp)
out=build/goamqp
new=$out.$$
mkdir -p "$new/internal"
for f in const errors link_options message; do cp "$src/$f.go" "$new/"; done
for d in buffer encoding debug shared; do mkdir -p "$new/internal/$d"; for f in "$src/internal/$d"/*.go; do case $f in *_test.go) ;; *) cp "$f" "$new/internal/$d/";; esac; done; done
printf "module github.com/Azure/go-amqp\n\ngo 1.18\n" > "$new/go.mod"
cp harness/goamqp/fake.go.txt "$new/fake.go"
chmod -R u+w "$new"
if [ -d "$out" ] && diff -r "$out" "$new" >/dev/null; then rm -rf "$PWD/$new"; else rm -rf "$PWD/$out"; mv "$new" "$out"; fi

#!/bin/bash
# Shows that the monitors build here, and leaves the compiled standard library in Go's build cache.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false GOWORK=off GOENV=off
work=$(mktemp -d) || exit 1
trap 'rm -rf "$work"' EXIT
cp -r "$here/harness" "$work/harness" && cd "$work/harness" && go build -mod=mod -o "$work/vmon" . && go build -mod=mod -race -o "$work/vmonr" . && go build -mod=mod -cover -covermode=atomic -coverpkg=verif/harness,github.com/infobloxopen/go-trees/... -o "$work/vmonc" . && echo "monitors build"

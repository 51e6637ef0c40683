#!/bin/bash
# Warms the build cache, so that the checks start quickly.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/verif-setup-XXXXXXXX) || exit 2
trap 'rm -rf "${tmp:?}"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
cd "$here/harness" || exit 2
cp go.mod go.sum "$tmp"
go build -modfile "$tmp/go.mod" -o "$tmp/h" . && go build -modfile "$tmp/go.mod" -race -o "$tmp/hr" .

#!/bin/bash
# Builds the framework once, to warm the Go build cache; the checks build on their own.
cd "$(dirname "$0")" || exit 1
export GOENV=off GO111MODULE=on GOWORK=off GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
cp -a harness "$tmp/harness"
(cd engine && go build -o "$tmp/engine" .) && (cd "$tmp/harness" && go build -o "$tmp/native" ./cmd/native)

#!/bin/bash
# Warm the build cache; every check builds again from /repo's current tree.
cd "$(dirname "$0")" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOCACHE=$PWD/.build/gocache
mkdir -p .build evidence replays
for c in cmd/*; do
	go build -o .build/${c#cmd/} ./$c || exit 1
done

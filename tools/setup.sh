#!/bin/bash
# Warm the build cache; every check still builds what it needs itself.
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
cd "$(dirname "$0")/../harness" || exit 1
d=$(mktemp -d)
cp -a . "$d/h" && cd "$d/h" && go build -race std >/dev/null 2>&1
for p in event mclock log common crypto compiler; do go test -c -race -vet=off -o /dev/null ./$p >/dev/null 2>&1 & done; wait
rm -rf "$d"
exit 0

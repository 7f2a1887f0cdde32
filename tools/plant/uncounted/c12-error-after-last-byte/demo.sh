#!/bin/bash
# Runs the demonstration beside this script against the tree in the current directory.
set -u
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOWORK=off
printf '{"Replace": {"%s/response/zz_demo_test.go": "%s/demo_test.go"}}\n' "$PWD" "$D" > "$T/overlay.json"
go test -overlay "$T/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestDemo' ./response

#!/bin/bash
# run with cwd /repo: exit 0 when the property holds for this input
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/go/bin:/usr/local/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off DEMO_DIR=$here
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
echo "{\"Replace\":{\"$PWD/PKG/zz_demo_test.go\":\"$here/demo_test.go\"}}" > "$tmp/overlay.json"
timeout 200 go test -overlay "$tmp/overlay.json" -vet=off -count=1 RACE-run TestDemo ./PKG

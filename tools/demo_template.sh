#!/bin/bash
# Runs main.go (beside this file) against the jsoncolor tree in the current directory.
[ -d /opt/veriftools/go1.26.10/bin ] && export PATH=/opt/veriftools/go1.26.10/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
here=$(cd "$(dirname "$0")" && pwd); export REPO=$PWD repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp "$here/main.go" "$t/main.go" && cp "$repo/go.sum" "$t/go.sum"
printf 'module demo\n\ngo 1.25.0\n\nrequire (\n\tgithub.com/neilotoole/jsoncolor v0.0.0\n\tgithub.com/fatih/color v1.19.0\n)\n\nreplace github.com/neilotoole/jsoncolor => %s\n' "$repo" > "$t/go.mod"
cd "$t" && timeout 200 go run . 

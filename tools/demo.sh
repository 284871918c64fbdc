#!/bin/bash
# Generates code from the schemas beside this file (if any), builds main.go
# against the repository in the current directory and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
export GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
cp "$here"/main.go "$tmp"/
sed "s,^module .*,module demo," go.mod > "$tmp"/go.mod
echo "require github.com/woven-planet/go-zserio v0.0.0
replace github.com/woven-planet/go-zserio => $repo" >> "$tmp"/go.mod
cp go.sum "$tmp"/
if ls "$here"/*.zs >/dev/null 2>&1; then
	go run ./cmd/go-zserio generate --out "$tmp"/gen --rootpackage demo/gen "$here"/*.zs
fi
cd "$tmp"
go build -o demo . || exit 1
timeout 60 ./demo

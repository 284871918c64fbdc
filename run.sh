#!/bin/bash
# run.sh ID [quick|thorough]: runs one property's check against /repo's working tree.
export VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export REPO_DIR=${REPO_DIR:-/repo}
export HOME=${HOME:-/root} LANG=C.UTF-8
export GOROOT=/opt/veriftools/go1.24.13
export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= CGO_ENABLED=0 GOENV=off
[ -n "$2" ] && export VERIF_TIER=$2
: "${VERIF_TIER:=quick}" "${VERIF_SEED:=1}"
export VERIF_TIER VERIF_SEED
mkdir -p "$VERIF_DIR/.build" || exit 2
(cd "$VERIF_DIR/mc" && GOWORK=off go build -o "$VERIF_DIR/.build/drive-$1" ./cmd/drive) || exit 2
[ "$1" = --setup ] && { rm -f "$VERIF_DIR/.build/drive---setup"; exit 0; }
exec "$VERIF_DIR/.build/drive-$1" "$1"

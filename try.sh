#!/bin/bash
# try.sh FILE...: generates code from schema files with the working tree's generator, in the worker of C17-C22, and type-checks it.
export VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export REPO_DIR=${REPO_DIR:-/repo}
export GOROOT=/opt/veriftools/go1.24.13 PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS= CGO_ENABLED=0 GOENV=off
F=(); for f in "$@"; do F+=("$(realpath "$f")"); done
cd "$VERIF_DIR/mc" && GOWORK=off exec go run ./cmd/gwtry "${F[@]}"

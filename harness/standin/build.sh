#!/bin/bash
# build.sh OUT-DIR: the repository's Go library against the stand-in for gnark, as a C archive
set -e
here=$(realpath "$(dirname "$0")"); out=$(realpath "$1")
src=$(realpath "$here/../../../repo/recursion-gnark/ffi/go")
cat > "$out/go.mod" <<M
module github.com/0xEigenLabs/eigen-recursion-gnark

go 1.22

require (
	github.com/consensys/gnark v0.0.0
	github.com/consensys/gnark-crypto v0.0.0
)

replace (
	github.com/consensys/gnark => $here/gnark
	github.com/consensys/gnark-crypto => $here/gnark-crypto
)
M
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off CGO_ENABLED=1 GOCACHE="${GOCACHE_DIR:-$out/gocache}"
cd "$src"
go build -modfile="$out/go.mod" -tags=debug -buildvcs=false -buildmode=c-archive -o "$out/libeigengnark.a" .

#!/bin/bash
# Builds and runs the demonstration beside this script against the code in the
# current directory (/repo). Exit 0: behaves; nonzero: broken.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/usr/bin:/bin:$PATH"
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cp "$D/main.go.txt" "$T/main.go" && cp "$R/go.sum" "$T/go.sum" || exit 2
sed -e 's,^module .*,module demo,' "$R/go.mod" > "$T/go.mod"
printf '\nrequire github.com/barnex/bruteray v0.0.0\nreplace github.com/barnex/bruteray => %s\n' "$R" >> "$T/go.mod"
cd "$T" && timeout 250 go run .

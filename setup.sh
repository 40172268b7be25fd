#!/bin/bash
# Warms the build cache: builds the compiler and the harness once.
set -eu
HERE=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0
S=$(mktemp -d /tmp/vsetup-XXXXXXXX)
trap 'rm -rf "$S"' EXIT
(cd /repo && go build -o "$S/fbdl" ./cmd/fbdl)
(cd /repo && CGO_ENABLED=1 go build -race -o "$S/fbdl-race" ./cmd/fbdl) || true
cp -r "$HERE/harness" "$S/harness"
cd "$S/harness"
go build -o "$S/vh" .
go build -o "$S/vhlib" ./lib
"$S/vh" list >/dev/null

#!/bin/bash
# replay.sh <replay file> : runs one recorded case against /repo.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0
S=$(mktemp -d /tmp/vreplay-XXXXXXXX) || exit 2
trap 'rm -rf "$S"' EXIT
(cd /repo && go build -o "$S/fbdl" ./cmd/fbdl) || exit 2
cp -r "$HERE/harness" "$S/harness"
(cd "$S/harness" && go build -o "$S/vh" . && { go build -o "$S/vhlib" ./lib || true; }) || exit 2
LIB=""; [ -x "$S/vhlib" ] && LIB="$S/vhlib"
TOK=""
echo "{\"Replace\": {\"/repo/internal/tok/vh_verif_test.go\": \"$HERE/harness/overlay/tok_verif_test.go\"}}" >"$S/overlay.json"
(cd /repo && go test -overlay "$S/overlay.json" -c -o "$S/toktest" ./internal/tok) >/dev/null 2>&1 && TOK="$S/toktest"
case "$1" in
*C13-races*) (cd /repo && CGO_ENABLED=1 go build -race -o "$S/fbdl-race" ./cmd/fbdl) && export VH_RACE="$S/fbdl-race" ;;
esac
"$S/vh" replay -fbdl "$S/fbdl" -lib "$LIB" -tok "$TOK" -scratch "$S/s" "$1"

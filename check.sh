#!/bin/bash
# check.sh <property> <quick|thorough> : rebuilds everything from /repo and runs the check.
set -u
PROP=$1
TIER=${2:-quick}
SEED=${VERIF_SEED:-1}
REPO=/repo
HERE=$(cd "$(dirname "$0")" && pwd)

if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOTOOLCHAIN=local GO111MODULE=on CGO_ENABLED=0

SCRATCH=$(mktemp -d /tmp/vcheck-XXXXXXXX) || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
NOTES=""

# The compiler under test.
if ! (cd "$REPO" && go build -o "$SCRATCH/fbdl" ./cmd/fbdl) 2>"$SCRATCH/err"; then
	cat "$SCRATCH/err" >&2
	echo "cannot build the compiler" >&2
	exit 2
fi

# Harness, with private copies of module files.
cp -r "$HERE/harness" "$SCRATCH/harness"
if ! (cd "$SCRATCH/harness" && go build -o "$SCRATCH/vh" .) 2>"$SCRATCH/err"; then
	cat "$SCRATCH/err" >&2
	echo "cannot build the harness" >&2
	exit 2
fi
LIB=""
if (cd "$SCRATCH/harness" && go build -o "$SCRATCH/vhlib" ./lib) 2>"$SCRATCH/err"; then
	LIB="$SCRATCH/vhlib"
else
	cat "$SCRATCH/err" >&2
	echo "note: library helper cannot be built, checks through the Go API are skipped" >&2
	NOTES="no-library-helper"
fi
TOK=""
if [ -d "$HERE/harness/overlay" ] && [ "$PROP" = C11 ]; then
	cat >"$SCRATCH/overlay.json" <<EOF
{"Replace": {"$REPO/internal/tok/vh_verif_test.go": "$HERE/harness/overlay/tok_verif_test.go"}}
EOF
	if (cd "$REPO" && go test -overlay "$SCRATCH/overlay.json" -c -o "$SCRATCH/toktest" ./internal/tok) >/dev/null 2>"$SCRATCH/err"; then
		TOK="$SCRATCH/toktest"
	else
		cat "$SCRATCH/err" >&2
		echo "note: token position test cannot be built, it is skipped" >&2
		NOTES="$NOTES no-token-test"
	fi
fi

# The compiler with the race detector, if it can be built and run here.
if [ "$PROP" = C13 ]; then
	if (cd "$REPO" && CGO_ENABLED=1 go build -race -o "$SCRATCH/fbdl-race" ./cmd/fbdl) 2>"$SCRATCH/err" &&
		GORACE=atexit_sleep_ms=0 "$SCRATCH/fbdl-race" -version >/dev/null 2>"$SCRATCH/err"; then
		export VH_RACE="$SCRATCH/fbdl-race"
	else
		cat "$SCRATCH/err" >&2
		echo "note: no race detector, search for races is skipped" >&2
		NOTES="$NOTES no-race-detector"
	fi
fi

"$SCRATCH/vh" run -prop "$PROP" -tier "$TIER" -seed "$SEED" -fbdl "$SCRATCH/fbdl" -lib "$LIB" -tok "$TOK" \
	-scratch "$SCRATCH/s" -evidence "$HERE/evidence/$PROP.json" -replays "$HERE/replays" \
	-known "$HERE/known-findings.jsonl" -notes "$NOTES"
exit $?

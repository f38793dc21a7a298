#!/bin/bash
# check.sh setup | check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
id=${1:?property}
tier=${2:-${VERIF_TIER:-quick}}
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
if ! (cd checker && go build -o "$tmp/checker" .) >"$tmp/log" 2>&1; then
	cat "$tmp/log"
	[ "$id" = setup ] && exit 1
	echo "the checker does not build"
	echo "VIOLATION property=$id replay=check.sh"
	exit 1
fi
[ "$id" = setup ] && exit 0
timeout -k 5 850 "$tmp/checker" check "$PWD" /repo "$id" "$tier" >"$tmp/out" 2>&1
rc=$?
cat "$tmp/out"
if [ $rc -ne 0 ] && ! grep -q "^VIOLATION property=$id " "$tmp/out"; then
	echo "the analysis ended with status $rc without an answer"
	echo "VIOLATION property=$id replay=check.sh"
fi
[ $rc -eq 0 ] || exit 1

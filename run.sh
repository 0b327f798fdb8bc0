#!/bin/bash
# usage: run.sh <property> [quick|thorough]
# Builds the symbolic executor when needed and decides one property against
# /repo's current working tree.
cd "$(dirname "$0")" || exit 2
V="$PWD"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off GONOSUMDB=* CGO_ENABLED=0
if [ -z "$HOME" ]; then export HOME=/root; fi
mkdir -p "$V/bin" "$V/evidence" "$V/replays"
(
  flock 9
  cd "$V/gosym" && go build -o "$V/bin/gosym" .
) 9>"$V/bin/.lock" || { echo "cannot build gosym" >&2; exit 2; }
[ "$1" = "--setup" ] && exit 0
unset GOFLAGS
exec "$V/bin/gosym" -verif "$V" -repo "${VERIF_REPO:-/repo}" -property "$1" -tier "${2:-quick}"

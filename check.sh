#!/bin/sh
# usage: check.sh <property> [quick|thorough]
# Decides one property on /repo's current tree. gosym is built on demand (offline, from this directory).
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh 2>/dev/null
export GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local
go build -o bin/gosym ./cmd/gosym || exit 2
[ -n "$2" ] && export VERIF_TIER="$2"
exec bin/gosym -verif "$PWD" -repo "${REPO:-/repo}" check "$1"

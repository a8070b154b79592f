#!/bin/sh
# builds gosym into the git-ignored bin directory
. /opt/vp/env.sh 2>/dev/null
cd "$(dirname "$0")" && GOPROXY=off GOFLAGS=-mod=mod go build -o bin/gosym ./cmd/gosym

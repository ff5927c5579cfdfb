#!/bin/bash
# Builds the checker (and its race-detector variant) once, to fill the build
# cache, and runs the self-test of the search engine and reference models.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
mkdir -p "$here/.build" "$here/evidence"
cd "$here/mc" || exit 1
go build -o "$here/.build/mc" . || exit 1
CGO_ENABLED=1 go build -race -o "$here/.build/mc-race" . || exit 1
"$here/.build/mc" instrument "$(go list -m -f '{{.Dir}}' github.com/jtcaraball/goexpdt)" "$here/.build/sched" &&
	go build -tags mcsched -overlay "$here/.build/sched/overlay.json" -o "$here/.build/mc-sched" . || echo "note: no points between statements" >&2
"$here/.build/mc" selftest || exit 1

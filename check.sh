#!/bin/bash
# usage: check.sh ID [quick|thorough]
# Builds the checker against /repo's working tree and runs one check.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=${CGO_ENABLED:-1}
mkdir -p "$here/.build"
bin="$here/.build/mc"
out=$(cd "$here/mc" && flock "$here/.build/lock" go build -o "$bin" . 2>&1) || {
	echo "$out" >&2
	echo "CHECK-ERROR: the checker does not build against /repo" >&2
	exit 4
}
if [ "$1" = T01 ]; then
	out=$(cd "$here/mc" && CGO_ENABLED=1 flock "$here/.build/lock" go build -race -o "$bin-race" . 2>&1) || {
		echo "$out" >&2
		echo "CHECK-ERROR: the checker does not build with the race detector" >&2
		exit 4
	}
	# with a point before every statement of the code under test, for the
	# controlled scheduler; without it only its calls are scheduled
	(
		cd "$here/mc" || exit 1
		exec 9>"$here/.build/lock.sched"
		flock 9
		dir=$(go list -m -f '{{.Dir}}' github.com/jtcaraball/goexpdt) &&
			"$bin" instrument "$dir" "$here/.build/sched" &&
			go build -tags mcsched -overlay "$here/.build/sched/overlay.json" -o "$bin-sched" .
	) && bin="$bin-sched" || echo "note: no points between statements" >&2
fi
cd "$here" || exit 4
export MC_VERIF="$here"
exec "$bin" check "$1" ${2:-}

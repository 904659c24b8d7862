#!/bin/bash
# check.sh ID [--replay FILE]: builds the checker for property ID from /repo's working tree and runs it.
# Exit 0: held on everything explored. Exit 1: a VIOLATION line was printed. Any other exit: the check itself failed.
set -u
cd "$(dirname "$0")" || exit 3
export VERIF_ROOT="$PWD"
export VERIF_REPO="${VERIF_REPO:-/repo}"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOTELEMETRY=off
id="$1"
shift
work="$(mktemp -d /tmp/verif.XXXXXX)" || exit 3
trap 'rm -rf "$work"' EXIT
case "$id" in
C0*|T01) kind=seq ;;
*) kind=sch ;;
esac
./build.sh "$kind" "$work" || { echo "the checker does not build" >&2; exit 3; }
case "$id" in
D02|S01|I01)
	./build.sh race "$work" || { echo "the checker does not build with the race detector" >&2; exit 3; }
	export VERIF_RACE_BIN="$work/race"
	;;
esac
"$work/$kind" "$id" "$@"
rc=$?
exit $rc

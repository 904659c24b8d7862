#!/bin/bash
# build.sh seq|sch|race DIR: builds the checker into DIR/seq, DIR/sch or DIR/race.
# sch and race are built from a copy of the library in which every synchronisation operation goes through package vs.
set -u
cd "$(dirname "$0")/go" || exit 3
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 GOFLAGS=-mod=mod GOTELEMETRY=off
instr() {
	mkdir -p "$1/$2" && go build -o "$1/instr" ./instr && "$1/instr" $3 "${VERIF_REPO:-/repo}" "$1/$2"
}
case "$1" in
seq) go build -o "$2/seq" ./seq ;;
sch) instr "$2" fields -fields && go build -overlay "$2/fields/overlay.json" -o "$2/sch" ./sch ;;
race) instr "$2" plain "" && CGO_ENABLED=1 go build -race -gcflags="verif/vs=-race=false -l" -gcflags="verif/sch=-race=false -l" \
	-gcflags="verif/ref=-race=false -l" -gcflags="verif/rep=-race=false -l" -overlay "$2/plain/overlay.json" -o "$2/race" ./sch ;;
esac

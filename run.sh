#!/bin/bash
# usage: run.sh build | run.sh check ID quick|thorough | run.sh replay FILE
# Builds the checker against the current working tree of /repo and runs it.
# C32 runs the demo commands, also built from that tree. C29 runs with the race detector of Go, every other check without it.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
export GOFLAGS="-mod=mod -buildvcs=false"
unset GOOS GOARCH
export MC_VERIF=$here
mkdir -p "$here/.build"
bin=$(mktemp "$here/.build/mc.XXXXXX") || exit 2
trap 'rm -f "$bin"' EXIT
build() {
	(cd "$here/mc" && go build "$@" -o "$bin" .) || { echo "build of the checker failed" >&2; exit 3; }
}
race= demo=
case "$1:$2" in
check:C29) race=-race ;;
check:C32) demo=1 ;;
replay:*)
	grep -q '"property": *"C29"' "$2" && race=-race
	grep -q '"property": *"C32"' "$2" && demo=1
	;;
esac
if [ "$1" = build ]; then
	build && CGO_ENABLED=1 build -race
	exit 0
fi
if [ -n "$race" ]; then
	export CGO_ENABLED=1 GORACE="halt_on_error=1 exitcode=66"
fi
build $race
if [ -n "$demo" ]; then
	export MC_DEMO=$bin.demo
	trap 'rm -rf "$bin" "$MC_DEMO"' EXIT
	mkdir "$MC_DEMO" && (cd "$here/mc" && go build -o "$MC_DEMO/" github.com/aiq/tok/demo/json-stack github.com/aiq/tok/demo/full-lua-stack) || { echo "build of the commands failed" >&2; exit 3; }
fi
"$bin" "$@"

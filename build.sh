#!/bin/bash
# build.sh DIR [TAGS]: build the simulator from /verif/sim and /repo's working tree into DIR.
# Tag c13: with a scheduling point before every statement of the package (overlay).
# Tag c21: with the script interpreter, a main package, under a package name of its own (overlay).
set -e
here=$(cd "$(dirname "$0")" && pwd)
dir=$1
mkdir -p "$dir/src"
cp "$here"/sim/*.go "$here/sim/go.mod" "$here/sim/go.sum" "$dir/src/"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 CGO_ENABLED=0
overlay=
case ",${2:-}," in
*,c13,*)
	mkdir -p "$dir/instr"
	cp "$here/instr/main.go" "$dir/instr.go"
	(cd "$dir" && GOFLAGS= go run instr.go "$dir/instr")
	overlay="-overlay $dir/instr/overlay.json"
	;;
*,c21,*)
	mkdir -p "$dir/gotester"
	printf 'package gotester\n\n// Main is the program.\nfunc Main() { main() }\n' >"$dir/gotester/verif_main.go"
	for f in /repo/tester/gotester/*.go; do
		case $f in *_test.go) continue ;; esac
		sed 's/^package main\b/package gotester/' "$f" >"$dir/gotester/${f##*/}"
	done
	{
		printf '{"Replace": {'
		sep=
		for f in "$dir"/gotester/*.go; do
			printf '%s\n "/repo/tester/verifgotester/%s": "%s"' "$sep" "${f##*/}" "$f"
			sep=,
		done
		printf '\n}}\n'
	} >"$dir/overlay.json"
	overlay="-overlay $dir/overlay.json"
	;;
esac
cd "$dir/src"
go build -tags "${2:-}" $overlay -o "$dir/simcheck" .

#!/bin/bash
# check.sh PROPERTY [quick|thorough]: build from the current trees, simulate, report.
here=$(cd "$(dirname "$0")" && pwd)
tier=${2:-${VERIF_TIER:-quick}}
tags=
case $1 in
C21) tags=c21 ;; # the only one that needs the script interpreter
C13) tags=c13 ;; # the only one that needs scheduling points inside calls
esac
seed=${VERIF_SEED:-1}
tmp=$(mktemp -d "${TMPDIR:-/tmp}/xwsim.XXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
if ! "$here/build.sh" "$tmp" "$tags" >"$tmp/build.log" 2>&1; then
	cat "$tmp/build.log" >&2
	echo "check.sh: build failed" >&2
	exit 2
fi
"$tmp/simcheck" check -prop "$1" -tier "$tier" -seed "$seed" -verif "$here" -tmp "$tmp"

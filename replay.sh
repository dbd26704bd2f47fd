#!/bin/bash
# replay.sh FILE: re-execute a replay file against /repo's current tree.
here=$(cd "$(dirname "$0")" && pwd)
file=$(realpath "$1") || exit 2
tmp=$(mktemp -d "${TMPDIR:-/tmp}/xwsim.XXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
tags=
case $(grep -m1 -o '"prop": "C[0-9]*"' "$file") in
*C21*) tags=c21 ;;
*C13*) tags=c13 ;;
esac
"$here/build.sh" "$tmp" "$tags" >&2 || exit 2
"$tmp/simcheck" replay "$file"

#!/bin/bash
# setup.sh: check that the simulator builds offline (and warm the build cache).
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d "${TMPDIR:-/tmp}/xwsim.XXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
"$here/build.sh" "$tmp" c13 && "$here/build.sh" "$tmp" c21 && "$tmp/simcheck" props

#!/bin/bash
# Replays a violation against the current tree of /repo. usage: replay.sh REPLAY-FILE
# Exits 1 if the violation recurs exactly, 0 if it does not, 2 if it could not be replayed.
set -u
here=$(cd "$(dirname "$0")" && pwd)
file=$(realpath "$1") || exit 2
scratch=$(mktemp -d "${TMPDIR:-/tmp}/vsim.XXXXXXXX") || exit 2
scratch=$(cd "$scratch" && pwd) || exit 2
trap 'case $scratch in /*/vsim.*) rm -rf "$scratch" ;; esac' EXIT
mode=
if grep -q '"race": true' "$file"; then mode=race; fi
"$here/build.sh" "$scratch" $mode || exit 2
GORACE="halt_on_error=0 exitcode=0" "$scratch/vsim" replay -v "$file"

#!/bin/bash
# Warms the build cache, so that the first check need not.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d "${TMPDIR:-/tmp}/vsim.XXXXXXXX") || exit 2
trap 'case $scratch in /*/vsim.*) rm -rf "$scratch" ;; esac' EXIT
"$here/build.sh" "$scratch" || exit 2
mkdir "$scratch/race" && "$here/build.sh" "$scratch/race" race

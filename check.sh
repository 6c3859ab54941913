#!/bin/bash
# Decides a property on the current tree of /repo.
# usage: check.sh PROPERTY     (VERIF_SEED and VERIF_TIER choose the seed and the tier)
# Exits 0 if the property held, 1 if it was violated, 2 if the check could not be completed.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
seed=${VERIF_SEED:-1}
tier=${VERIF_TIER:-quick}
case $tier in
quick) count=${VERIF_COUNT:-48000} limit=150 rcount=${VERIF_RCOUNT:-24000} ;;
thorough) count=${VERIF_COUNT:-2000000} limit=${VERIF_LIMIT:-600} rcount=${VERIF_RCOUNT:-100000} ;;
*) echo "check: unknown tier $tier" >&2; exit 2 ;;
esac
scratch=$(mktemp -d "${TMPDIR:-/tmp}/vsim.XXXXXXXX") || exit 2
scratch=$(cd "$scratch" && pwd) || exit 2
trap 'case $scratch in /*/vsim.*) rm -rf "$scratch" ;; esac' EXIT
trap 'exit 2' INT TERM HUP

"$here/build.sh" "$scratch" || exit 2
"$scratch/vsim" check -prop "$prop" -seed "$seed" -tier "$tier" -count "$count" -limit "$limit" -out "$here"
status=$?
if [ "$prop" = C12 ] && [ $status = 0 ]; then
  # The race detector watches the same schedules.
  mkdir "$scratch/race" && "$here/build.sh" "$scratch/race" race || exit 2
  "$scratch/race/vsim" check -prop "$prop" -seed "$seed" -tier "$tier" -count "$rcount" -limit "$limit" -out "$here"
  status=$?
fi
if [ $status = 0 ]; then
  # Genuine defects recorded but not repaired, if any, are listed here.
  grep -E "^KNOWN-FINDING: property=$prop " "$here/known-findings.txt"
fi
exit $status

#!/bin/bash
# Builds the simulator around an instrumented copy of the working tree.
# usage: build.sh SCRATCH [race]     (SCRATCH must exist; the binary is SCRATCH/vsim)
set -u
here=$(cd "$(dirname "$0")" && pwd)
scratch=$1
race=${2:-}
repo=${VERIF_REPO:-/repo}
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off

(cd "$here/instr" && go build -o "$scratch/instr" .) || { echo "build: cannot build the instrumenter" >&2; exit 2; }
for level in 3 2 1 0; do
  rm -rf "$scratch/src"
  mkdir -p "$scratch/src/internal/zsim"
  (cd "$repo" && find . -path ./.git -prune -o -type f \( -name '*.go' ! -name '*_test.go' -o -name go.mod -o -name go.sum \) -print0 | tar --null -cf - -T -) | tar -xf - -C "$scratch/src" || exit 2
  cp -r "$here/sim/simrt" "$here/sim/simsync" "$here/sim/vsim" "$scratch/src/internal/zsim/" || exit 2
  : > "$scratch/src/internal/zsim/vsim/sites.txt"
  sites=$("$scratch/instr" -dir "$scratch/src" -level "$level") || { echo "build: cannot instrument at level $level" >&2; continue; }
  flags=(-trimpath)
  if [ "$race" = race ]; then flags+=(-race); fi
  if (cd "$scratch/src" && go build "${flags[@]}" -o "$scratch/vsim" ./internal/zsim/vsim) 2>"$scratch/build.log"; then
    if [ "$level" != 3 ]; then echo "build: instrumented at level $level only" >&2; fi
    exit 0
  fi
  echo "build: level $level does not compile" >&2
  head -20 "$scratch/build.log" >&2
done
exit 2

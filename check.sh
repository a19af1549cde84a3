#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the simulator from the working tree of
# /repo and searches. Exit 0: held on everything explored; 1: violation; 2: trouble.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verif-sim.XXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
trap 'exit 2' INT TERM
if ! bash "$here/build.sh" "$scratch" >"$scratch/build.log" 2>&1; then
  cat "$scratch/build.log" >&2
  echo "check.sh: building the simulator from ${VERIF_REPO:-/repo} failed" >&2
  exit 2
fi
mkdir -p "$scratch/run"
"$scratch/sim" check -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -scratch "$scratch/run" -verif "${VERIF_OUT:-$here}"

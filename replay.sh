#!/bin/bash
# replay.sh FILE: rebuilds the simulator and executes a replay file in a fresh
# process. Exit 1 and the violation if it reproduces, 0 if it does not.
set -u
here=$(cd "$(dirname "$0")" && pwd)
file=$(realpath "$1")
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verif-sim.XXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
trap 'exit 2' INT TERM
if ! bash "$here/build.sh" "$scratch" >"$scratch/build.log" 2>&1; then
  cat "$scratch/build.log" >&2
  exit 2
fi
mkdir -p "$scratch/run"
"$scratch/sim" replay "$file" "$scratch/run"

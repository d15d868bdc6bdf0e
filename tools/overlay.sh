#!/bin/bash
# usage: overlay.sh REPO HARNESS
# Prints the overlay that adds the probe (and the packages it shares with the
# monitors) to the repository as internal/vhprobe.
set -e
R=$1 H=$2
echo '{"Replace": {'
sep=
for f in "$(dirname "$H")"/probe/*.go; do
  printf '%s"%s": "%s"\n' "$sep" "$R/internal/vhprobe/$(basename "$f")" "$f"; sep=,
done
for f in "$(dirname "$H")"/probe/serve/*.go; do
  printf '%s"%s": "%s"\n' "$sep" "$R/internal/vhserve/$(basename "$f")" "$f"
done
for d in hp ref; do
  for f in "$H"/$d/*.go; do
    printf '%s"%s": "%s"\n' "$sep" "$R/internal/vhprobe/$d/$(basename "$f")" "$f"
  done
done
echo '}}'

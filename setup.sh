#!/bin/bash
# Builds every check once (a warm cache for the checks; each check builds what it needs anyway).
set -u
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR
. "$VERIF_DIR/build.sh"
for a in "$VERIF_DIR"/harness/*/; do
  a=$(basename "$a")
  case $a in common|refmodel) continue ;; esac
  build_area "$a" || exit 1
done

#!/bin/bash
# usage: check.sh ID [--replay FILE] [--only SUB]
# Builds the check of property ID against /repo's working tree and runs it.
# Exit 0: held; 1 and a VIOLATION line: broken; anything else: the check itself failed.
set -u
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR
id=$1
case $id in
  R*) area=rac ;;
  K*) area=kyber ;;
  N*) area=noise ;;
  S*) area=session ;;
  U*|T*) area=net ;;
  D*|L*|C*) area=node ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac
. "$VERIF_DIR/build.sh"
build_area "$area" || { echo "building the $area check failed" >&2; exit 2; }
limit=${VERIF_LIMIT_S:-780}
[ "${VERIF_TIER:-quick}" = thorough ] && limit=${VERIF_LIMIT_S:-7200}
ulimit -c 0
timeout -k 10 "$limit" "$CARGO_TARGET_DIR/debug/chk-$area" "$@"
rc=$?
case $rc in
  0|1) exit $rc ;;
  *) echo "check $id ended with $rc" >&2; exit 3 ;;
esac

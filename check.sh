#!/bin/bash
# check.sh ID [quick|thorough|replay PATH]: build what the check of property ID
# needs from /repo's working tree and run it.
set -u
V=$(cd "$(dirname "$0")" && pwd)
ID=$1; MODE=${2:-quick}
case $ID in
  C01|C02|C03|C04|C05|C06|C07|C08|C09|C10|C11|C12|C22|C23) CMD=mclog ;;
  C13|C14|C15|C16|C17|C18) CMD=mcmon ;;
  C19|C20) CMD=mcenc ;;
  C21) CMD=mcint ;;
  *) echo "unknown property $ID" >&2; exit 2 ;;
esac
export VERIF_SEED=${VERIF_SEED:-1}
OUT=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 2
trap 'rm -rf "$OUT"' EXIT
if ! "$V/tools/build.sh" "$OUT" cmd/$CMD > "$OUT/log" 2>&1; then
  cat "$OUT/log" >&2; echo "the harness does not build against /repo" >&2; exit 2
fi
mkdir -p "$V/evidence"
export TMPDIR=$OUT
cd "$V"
case $MODE in
  replay) "$OUT/$CMD" -check $ID -verif "$V" -seed $VERIF_SEED -replay "$3" ;;
  *) "$OUT/$CMD" -check $ID -verif "$V" -tier $MODE -seed $VERIF_SEED ${VERIF_ARGS:-} ;;
esac

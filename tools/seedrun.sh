#!/bin/bash
# seedrun.sh SEED [CHECK...]: run the checks (by default the one of its
# property) against a copy of /repo with a planted bug.  Only for development:
# the checks themselves always use /repo.
V=$(cd "$(dirname "$0")/.." && pwd)
S=$V/seeded/$1; shift
C=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
D=$(mktemp -d /tmp/seedrun.XXXXXX)
trap 'rm -rf "$D"' EXIT
git -C /repo archive HEAD | tar -x -C "$D"
(cd "$D" && git init -q && git apply "$S/patch.diff") || exit 2
export VERIF_REPO=$D
for c in $C; do
  s=$(date +%s)
  o=$("$V/check.sh" $c ${TIER:-quick} 2>&1); rc=$?
  echo "$(basename $S) $c rc=$rc $(( $(date +%s) - s ))s $(echo "$o" | grep VIOLATION | head -1)"
  [ -n "${SHOW:-}" ] && echo "$o" | tail -$SHOW
done
exit 0

#!/bin/bash
# build.sh OUT PKG...: build the named harness packages of /verif/mc against
# /repo's working tree (nothing is written to /repo or to the module cache).
set -eu
V=$(cd "$(dirname "$0")/.." && pwd)
OUT=$(mkdir -p "$1"; cd "$1"; pwd); shift
export GOROOT=/opt/veriftools/go1.25.14
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB='*' GOTELEMETRY=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
export GOCACHE=${VERIF_GOCACHE:-$V/build/gocache}
export CGO_ENABLED=0
mkdir -p "$OUT" "$GOCACHE"
python3 "$V/tools/mkoverlay.py" $GOROOT "$OUT/ov"
python3 "$V/tools/mkfastly.py" "$GOMODCACHE" "$OUT/fastly"
{ sed "s|=> /repo\$|=> ${VERIF_REPO:-/repo}|" "$V/mc/go.mod"; echo "replace github.com/fastly/compute-sdk-go => $OUT/fastly"; } > "$OUT/go.mod"
cp "$V/mc/go.sum" "$OUT/go.sum"
if [ "$*" = cmd/mcint ]; then # this one runs on a copy with scheduling points
  mkdir -p "$OUT/ins"
  D="internal/ctmonitor internal/ctsubmit internal/sunlight internal/rfc6979"
  (cd "$V/mc" && $GOROOT/bin/go list -buildvcs=false -modfile="$OUT/go.mod" -overlay="$OUT/ov/overlay.json" -export -deps -json=ImportPath,Dir,Export $(printf 'itko.dev/%s ' $D)) > "$OUT/ins/list.json" || true
  (cd "$V/tools/instrument" && $GOROOT/bin/go run . "$OUT/ins" "${VERIF_REPO:-/repo}" "$OUT/ins/list.json" $D)
  python3 "$V/tools/mkoverlay.py" $GOROOT "$OUT/ov" "$OUT/ins/instrument.json"
fi
cd "$V/mc"
for p in "$@"; do
  $GOROOT/bin/go build -buildvcs=false -modfile="$OUT/go.mod" -overlay="$OUT/ov/overlay.json" -o "$OUT/$(basename $p)" ./$p
done

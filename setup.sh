#!/bin/bash
# Check that everything the checks need is there: build all harnesses once.
set -eu
V=$(cd "$(dirname "$0")" && pwd)
OUT=$(mktemp -d)
trap 'rm -rf "$OUT"' EXIT
"$V/tools/build.sh" "$OUT" $(cd "$V/mc" && ls -d cmd/*)
"$V/tools/build.sh" "$OUT" cmd/mcint
ls "$OUT"

#!/bin/bash
# Nothing is kept between runs: every check builds what it needs from /repo's
# working tree. This only makes sure that the tool chain is there, and warms its
# build cache where the cache survives.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
cp -r harness "$tmp/harness" && cd "$tmp/harness" || exit 1
go test -c -o "$tmp/h" . || echo "note: the harness does not build against this tree"
go test -race -c -o "$tmp/h" . || true
CGO_ENABLED=1 CC=clang go test -asan -c -o "$tmp/h" . || true
exit 0

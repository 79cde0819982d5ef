#!/bin/bash
# build.sh OUT [-race]: makes the instrumented copy of /repo in a scratch
# directory, builds the explorer from it into OUT and removes the copy.
set -e
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
out=$1; shift
tmp=$(mktemp -d /tmp/verif.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
(cd "$here/instr" && go build -o "$tmp/instr" .)
"$tmp/instr" "${VERIF_REPO:-/repo}" "$here/rt" "$here/harness" "$tmp/shadow"
cp -r "$here/pure/ref" "$tmp/shadow/zz_verif/ref"
cd "$tmp/shadow"
go build "$@" -o "$out" ./zz_verif
[ -z "$VERIF_KEEP" ] || cp -r "$tmp/shadow" "$VERIF_KEEP"

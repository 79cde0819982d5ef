#!/bin/bash
# buildpure.sh OUT: builds the enumerator of the side-effect free parts against
# /repo's working tree, in a scratch directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
repo=${VERIF_REPO:-/repo}
tmp=$(mktemp -d /tmp/verif.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
cp -r "$here/pure" "$tmp/pure"
cp "$repo/go.sum" "$tmp/pure/go.sum"
cd "$tmp/pure"
sed -i "s#=> /repo#=> $repo#" go.mod
grep -vE '^(module|go) ' "$repo/go.mod" >> go.mod
go build -o "$1" .

#!/bin/bash
# Runs the test beside this script inside a package of the repository in the
# current directory.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
pkg=$(cat "$here/pkg")
export DEMO_DIR=$here
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
printf '{"Replace": {"%s/%s/zz_demo_test.go": "%s/demo_test.go.txt"}}\n' "$PWD" "$pkg" "$here" > "$tmp/overlay.json"
go test -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run 'TestDemo' "./$pkg"

#!/bin/bash
# Usage: tools/seed.sh ID [CHECK...]   confirms a planted bug: the demonstration
# passes on /repo's HEAD and fails with the patch, which builds and passes the
# tests; then runs the checks (its property's one if none are given).
here=$(cd "$(dirname "$0")/.." && pwd)
id=${1:?}; shift
s=$here/seeded/$id
. /opt/vp/env.sh
d=$(mktemp -d /tmp/seed.XXXXXXXX) || exit 2
trap 'rm -rf -- "$d"' EXIT
cp -a /repo "$d/repo" && mkdir "$d/lib" && cp -a "$s/." "$d/lib/" && rm -f "$d"/lib/*.diff "$d"/lib/meta.json
cd "$d/repo" && git checkout -q . || exit 2
bash "$d/lib/demo.sh" > "$d/out" 2>&1; a=$?
[ $a = 0 ] || { echo "$id: demo fails on the unchanged tree"; tail -20 "$d/out"; }
git apply "$s/patch.diff" || { echo "$id: patch"; exit 1; }
go build ./... && go vet ./... > /dev/null 2>&1
go test ./... 2>&1 | grep -v 'no test files' | grep -v '^ok' | head -20
timeout 300 bash "$d/lib/demo.sh" > "$d/out" 2>&1; b=$?
echo "$id: demo $a -> $b  $(grep -m1 -- '_test.go:\|panic:\|FAIL' "$d/out" | cut -c1-150)"
[ -n "$DEMO" ] && cat "$d/out"
[ -n "$NOCHECK" ] && exit
c="$*"; [ -n "$c" ] || c=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
"$here/tools/mutant.sh" "$s/patch.diff" $c | sed "s/^/  /"

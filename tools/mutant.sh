#!/bin/bash
# Usage: tools/mutant.sh PATCH CHECK...   applies a patch to a copy of /repo
# (-R in front of PATCH reverts it) and runs the checks against the copy.
rev=
[ "$1" = -R ] && rev=-R && shift
patch=$(realpath "$1"); shift
d=$(mktemp -d /tmp/mutant.XXXXXXXX) || exit 2
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/repo" "$d/ev" && cp -a /repo/. "$d/repo/" || exit 2
git -C "$d/repo" apply $rev "$patch" || { echo "PATCH FAILS $patch"; exit 2; }
for c in "$@"; do
  out=$(VERIF_REPO=$d/repo VERIF_EVIDENCE=$d/ev VERIF_SEED=1 VERIF_TIER=${VERIF_TIER:-quick} "$(dirname "$0")/../check" "$c" 2>&1)
  rc=$?
  echo "== $(basename "$patch") $c: exit $rc $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep '^  ' | head -1 | cut -c1-300)"
  [ -n "$VERBOSE" ] && echo "$out" | tail -30
done
true

#!/bin/bash
# try_equivalent.sh PATCH [PROP...]: applies a behaviour-preserving patch to a scratch copy of /repo and runs the checks
# (all of them, or the ones named) on it; every one must stay quiet.
verif=$(cd "$(dirname "$0")/.." && pwd)
patch=$(readlink -f "$1"); shift
x=/tmp/seedwork/eq-$(basename "$patch" .diff)
rm -rf "$x"; mkdir -p "$x/verif"
trap 'rm -rf "'"$x"'"' EXIT
cp -a /repo "$x/repo"
git -C "$x/repo" checkout -q -- .
git -C "$x/repo" apply "$patch" || exit 1
cp -a $verif/dst $verif/check.sh $verif/known_findings.txt "$x/verif/"
[ $# = 0 ] && set -- $(seq -f C%02g 1 27)
for p in "$@"; do
    (cd "$x/verif" && ./check.sh $p >"$x/out" 2>&1); c=$?
    echo "$(basename "$patch"): check $p exit $c $(grep -E '^minimised|^violation|^VIOL|harness|^error' "$x/out" | head -2 | cut -c1-300)"
    [ $c = 0 ] || cp "$x/out" "/tmp/eq-$p.out"
done

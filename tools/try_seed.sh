#!/bin/bash
# try_seed.sh ID [PROP...]: in a scratch copy, confirms that seeded/ID applies, builds, passes the existing tests and
# that its demonstration tells the two trees apart; then runs the check of its property (or the ones named) on it.
verif=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
d=$verif/seeded/$id
x=/tmp/seedwork/$id
rm -rf "/tmp/seedwork/$id"; mkdir -p $x/verif
trap 'rm -rf "/tmp/seedwork/'$id'"' EXIT
cp -a /repo $x/repo
git -C $x/repo checkout -q -- .
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR
if [ -z "$SKIP_DEMO" ]; then
    mkdir $x/demo; cp -a $d/. $x/demo; rm -f $x/demo/*.diff $x/demo/meta.json
    (cd $x/repo && timeout 300 bash $x/demo/demo.sh >$x/demo.clean 2>&1); a=$?
fi
git -C $x/repo apply $d/patch.diff || { echo "$id: does not apply"; exit 1; }
if [ -z "$SKIP_DEMO" ]; then
    t=$(cd $x/repo && CARGO_TARGET_DIR=$x/repo/target cargo test --workspace --offline 2>&1)
    n=$(echo "$t" | grep '^test result' | sed 's/.*ok\. \([0-9]*\) passed.*/\1/' | paste -sd+ | bc)
    (cd $x/repo && timeout 300 bash $x/demo/demo.sh >$x/demo.bad 2>&1); b=$?
    echo "$id: tests passed $n (want 125), demo clean $a, demo patched $b ($(tail -1 $x/demo.bad | cut -c1-120))"
    [ "$n" = 125 ] || echo "$t" | grep -E "FAILED|panicked|^error" -A5 | head -20
    [ $a = 0 ] || cat $x/demo.clean | tail -20
fi
cp -a $verif/dst $verif/check.sh $verif/known_findings.txt $x/verif/
[ -d /tmp/seedtarget ] || cp -a $verif/target /tmp/seedtarget
cp -a /tmp/seedtarget $x/verif/target
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
for p in "$@"; do
    (cd $x/verif && ./check.sh $p >$x/out 2>&1); c=$?
    echo "$id: check $p exit $c: $(grep -E '^minimised|harness|^error' $x/out | head -1 | cut -c1-200) [$(grep 'runs,' $x/out | sed 's/.*steps, //')]"
    [ -n "$SHOW" ] && cat $x/out
done

#!/bin/bash
# determinism.sh [RUNS] [SEEDS...]: every property, each seed at several worker counts and twice at the same one; the
# per-run digests, step counts, choice counts and outcomes must be identical.
cd "$(dirname "$0")/.." || exit 2
./check.sh build || exit 2
runs=${1:-4000}; shift
seeds=${*:-1 7}
tmp=$(mktemp -d)
export DST_NO_EVIDENCE=1 DST_ROOT=$PWD DST_DEADLINE=600
bad=0
for p in $(target/checked/dst list); do
    for s in $seeds; do
        n=$runs; [ $p = C18 ] && n=$((runs / 8))
        for w in 8 2 6 8; do
            DST_RUNS=$n VERIF_SEED=$s DST_WORKERS=$w DST_TRACE=$tmp/$p.$s.$w.$RANDOM target/checked/dst check $p >/dev/null || { echo "$p seed $s failed"; bad=1; }
        done
        k=$(cat $tmp/$p.$s.* | sort | uniq -c | awk '$1 != 4' | wc -l)
        t=$(cat $tmp/$p.$s.* | wc -l)
        echo "$p seed $s: $t lines, $k differing"
        [ "$k" = 0 ] && [ "$t" = $((n * 4)) ] || bad=1
        rm -f $tmp/$p.$s.*
    done
done
rmdir $tmp
exit $bad

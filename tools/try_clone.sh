#!/bin/bash
# try_clone.sh ID...: as try_bug.sh, but in clones of /repo under /tmp, so that /repo is not touched and several can
# run at once (JOBS=n).  SEEDED names another folder of planted bugs; CHECKS other checks, or none.
V=$(cd "$(dirname "$0")/.." && pwd); export V SEEDED=${SEEDED:-$V/seeded}
one() {
    id=$1; d=$SEEDED/$id; t=$(mktemp -d /tmp/tryc-XXXX); r=$t/repo
    git clone -q /repo $r; mkdir $t/demo; cp "$d"/* $t/demo; rm -f $t/demo/*.diff $t/demo/meta.json
    build() { (cd $r && CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=Debug \
        -DCMAKE_CXX_FLAGS="-include cstdint" && ninja -j4 -C _build) >$t/build 2>&1; }
    build || { echo "$id: the clone does not build"; rm -rf $t; return; }
    (cd $r && timeout 300 bash $t/demo/demo.sh >$t/out0 2>&1); a=$?
    git -C $r apply "$d/patch.diff" || { echo "$id: does not apply"; rm -rf $t; return; }
    build; b=$?
    f=$(flock /tmp/tryc.lock bash -c "rm -f /tmp/test.map /tmp/test.memsector; ctest --test-dir $r/_build -j1 --timeout 120 -E '^integration_queries\$' 2>&1 | grep 'tests passed'")
    (cd $r && timeout 300 bash $t/demo/demo.sh >$t/out1 2>&1); c=$?
    o="$id: demo clean=$a patched=$c build=$b $f | $(tail -1 $t/out1 | cut -c1-160)"
    [ $a != 0 ] && o="$o | clean: $(tail -1 $t/out0 | cut -c1-160)"
    for p in ${CHECKS:-$(python3 -c "import json; print(json.load(open('$d/meta.json'))['property'])")}; do
        [ "$p" = none ] && continue
        s=$(date +%s); (cd $V && MV_REPO=$r VERIF_SEED=1 VERIF_TIER=${TIER:-quick} timeout 900 python3 bin/check.py $p >$t/check 2>&1); x=$?
        o="$o
   check $p: exit $x in $(($(date +%s)-s)) s: $(grep -m1 VIOLATION $t/check | cut -c1-150)$([ $x = 2 ] && grep -m1 "CHECK ERROR" -A3 $t/check | cut -c1-400)"
    done
    echo "$o"
    [ -n "$KEEP" ] || rm -rf $t
}
export -f one
printf '%s\n' "$@" | xargs -P ${JOBS:-4} -I{} bash -c 'one {}'

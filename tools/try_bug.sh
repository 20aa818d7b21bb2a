#!/bin/bash
# try_bug.sh ID...: for each planted bug: does the patch apply and build, do the stable tests pass, does the demo tell
# the two apart, and which of the property's checks (meta.json; or $CHECKS) see it?  Works on /repo and undoes it.
V=$(cd "$(dirname "$0")/.." && pwd)
trap 'git -C /repo checkout -q -- .' EXIT
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo is not clean"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1
for id in "$@"; do
    d=$V/seeded/$id; t=$(mktemp -d /tmp/try-XXXX); cp "$d"/* $t/; demo=$t/demo.sh
    (cd /repo && timeout 300 bash $demo >$t/out0 2>&1); a=$?
    git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
    bash /opt/vp/build.sh >/tmp/try.build 2>&1; b=$?
    bash /opt/vp/test.sh $t/tests.json >/dev/null 2>&1
    f=$(python3 -c "
import json,sys; d=json.load(open('$t/tests.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print(json.dumps(d)[:0], len(d.get('failed', [])))")
    (cd /repo && timeout 300 bash $demo >$t/out1 2>&1); c=$?
    echo "$id: demo clean=$a patched=$c build=$b failing tests=$f  $(tail -1 $t/out1 | cut -c1-200)"
    for p in ${CHECKS:-$(python3 -c "import json; print(json.load(open('$d/meta.json'))['property'])")}; do
        [ "$p" = none ] && continue
        cmd="python3 bin/check.py $p"
        s=$(date +%s); (cd $V && VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash -c "$cmd" >/tmp/try.$p 2>&1); r=$?
        echo "   check $p: exit $r in $(($(date +%s)-s)) s: $(grep -m1 VIOLATION /tmp/try.$p | cut -c1-150)"
    done
    git -C /repo checkout -q -- .
    rm -rf $t
done
bash /opt/vp/build.sh >/dev/null 2>&1

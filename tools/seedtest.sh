#!/bin/bash
# seedtest.sh ID...: confirm planted bugs in scratch copies of /repo (patch applies, demo passes without and fails with
# the patch, stable tests pass) and show which registered checks report them.
# NOTESTS=1 skips the test suite; CHECKS="F01 F02" selects checks (default: the property of the bug).
here=$(cd "$(dirname "$0")/.." && pwd)
one() {
    id=$1; d=$here/seeded/$id; w=/tmp/seedtest.$id
    rm -rf "$w" "$w.demo"; cp -a /repo "$w" || return 1
    cp -a "$d" "$w.demo"; rm -f "$w.demo"/*.diff "$w.demo"/meta.json
    (cd "$w" && timeout 300 bash "$w.demo/demo.sh" >"$w.demo/out0" 2>&1); r0=$?
    if ! (cd "$w" && git apply "$d/patch.diff"); then echo "$id: PATCH DOES NOT APPLY"; rm -rf "$w" "$w.demo"; return 1; fi
    if grep -q '^+++ .*\.\(cpp\|pyx\)$' "$d/patch.diff"; then
        (cd "$w" && rm -f src/s3ql/sqlite3ext*.so src/s3ql/sqlite3ext.cpp && PATH=/opt/venv/bin:$PATH /opt/venv/bin/python setup.py -q build_ext --inplace >"$w.demo/build" 2>&1 ||
            /opt/venv/bin/python -c "from setuptools import setup; setup()" build_ext --inplace >>"$w.demo/build" 2>&1) || echo "$id: BUILD FAILED"
    fi
    (cd "$w" && timeout 300 bash "$w.demo/demo.sh" >"$w.demo/out1" 2>&1); r1=$?
    t=skipped
    if [ -z "$NOTESTS" ]; then
        (cd "$w" && PATH=/opt/venv/bin:$PATH PYTHONPATH=$w/src PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=60 --session-timeout=500 \
            --ignore=tests/t4_fuse.py --ignore=tests/t5_cache.py --ignore=tests/t5_cp.py --ignore=tests/t5_ctrl.py \
            --ignore=tests/t5_failsafe.py --ignore=tests/t5_full.py --ignore=tests/t5_lock_rm.py --ignore=tests/t6_upgrade.py \
            --junitxml="$w.demo/j.xml" tests >"$w.demo/tests" 2>&1)
        /usr/bin/python3 /opt/vp/results.py "$w.demo/res.json" "junit:$w.demo/j.xml" >/dev/null 2>&1
        t=$(/usr/bin/python3 -c "
import json,sys
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('$w.demo/res.json'))['passed'])
m=sorted(s-p); print('ok' if not m else 'FAIL '+' '.join(m[:4]))")
    fi
    prop=$(/usr/bin/python3 -c "import json; print(json.load(open('$d/meta.json'))['property'])")
    res=
    for c in ${CHECKS:-$prop}; do
        if [ -n "$(cd $here && python3 -c "from checks import CHECKS; print(1 if '$c' in CHECKS else '')")" ]; then
            VERIF_REPO=$w VERIF_EVIDENCE_DIR=$w.demo timeout 900 python3 "$here/check.py" $c >"$w.demo/check.$c" 2>&1
            res="$res $c=$?"
        else res="$res $c=none"; fi
    done
    v=OK; [ $r0 = 0 ] && [ $r1 != 0 ] && [ "$t" != "${t#FAIL}" ] && v=BAD; [ $r0 != 0 -o $r1 = 0 ] && v=BAD
    echo "$id: $v demo0=$r0 demo1=$r1 tests=$t checks:$res"
    if [ $v = BAD -o -n "$SHOW" ]; then tail -n 5 "$w.demo/out0" "$w.demo/out1"; fi
    [ -n "$SHOW" ] && tail -n 5 "$w.demo"/check.*
    rm -rf "$w" "$w.demo"
}
for i in "$@"; do one "$i" & while [ "$(jobs -rp | wc -l)" -ge 5 ]; do sleep 0.5; done; done; wait

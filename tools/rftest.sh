#!/bin/bash
# rftest.sh NAME...: apply a rewriting to a scratch copy, confirm that the stable tests pass (unless NOTESTS=1) and show the alarms.
here=$(cd "$(dirname "$0")/.." && pwd)
one() {
    n=$1; w=/tmp/rftest.$n; o=/tmp/rfout.$n; rm -rf "$w" "$o"; mkdir -p "$o"; cp -a /repo "$w"
    /usr/bin/python3 "$here/tools/refactor.py" "$n" "$w" $FILES || { echo "$n: failed"; return; }
    t=skipped
    if [ -z "$NOTESTS" ]; then
        (cd "$w" && PATH=/opt/venv/bin:$PATH PYTHONPATH=$w/src PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=60 --session-timeout=500 \
            --ignore=tests/t4_fuse.py --ignore=tests/t5_cache.py --ignore=tests/t5_cp.py --ignore=tests/t5_ctrl.py \
            --ignore=tests/t5_failsafe.py --ignore=tests/t5_full.py --ignore=tests/t5_lock_rm.py --ignore=tests/t6_upgrade.py \
            tests >"$o/tests" 2>&1); t=$(tail -1 "$o/tests")
    fi
    VERIF_REPO=$w VERIF_EVIDENCE_DIR=$o timeout 1800 python3 "$here/check.py" ${CHECKS:-all} >"$o/check" 2>&1
    echo "$n: tests: $t; alarms: $(grep -oE '(VIOLATION|ANALYSIS-ERROR) property=[A-Z0-9]+' "$o/check" | sed 's/VIOLATION property=//;s/ANALYSIS-ERROR property=/!/' | tr '\n' ' ')"
    rm -rf "$w"
}
for i in "$@"; do one "$i" & while [ "$(jobs -rp | wc -l)" -ge "${JOBS:-4}" ]; do sleep 0.5; done; done; wait

#!/usr/bin/env python3
'''Run one or all checks: check.py ID [ID...] | all'''
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from checks import CHECKS
from sa.report import run_check


def main():
    ids = sys.argv[1:]
    if ids == ['all']:
        ids = sorted(CHECKS)
        if True:
            import subprocess
            from concurrent.futures import ThreadPoolExecutor

            def one(i):
                p = subprocess.run([sys.executable, os.path.abspath(__file__), i], capture_output=True, text=True)
                return i, p.returncode, p.stdout + p.stderr
            bad = 0
            with ThreadPoolExecutor(8) as ex:
                for i, rc, out in ex.map(one, ids):
                    print(out, end='')
                    if rc:
                        print('   -> exit', rc)
                    bad = max(bad, rc)
            return bad
    rc = 0
    for i in ids:
        c = CHECKS[i]
        rc = max(rc, run_check(i, c['func'], c.get('level', 'other'), c.get('explanation', ''), c.get('assumptions', ())))
    return rc


if __name__ == '__main__':
    sys.exit(main())

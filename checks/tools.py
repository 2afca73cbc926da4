'''T01 - T07: command line tools, pipelines and shutdown.'''

from __future__ import annotations

import ast

from sa.baseline import known_functions
from sa.interp import FALSE, NONE, TRUE, cval, const, is_const, show, subterms
from sa.lib import is_attr, last
from sa.repo import AnalysisError, walk_own

from . import check
from .storage import Trace, TraceMonitor, exc_name, is_res, item, kwarg, mention, res_args, sviol
from .storage3 import OwnPolicy, called, callers, constructs, handles, ifs, kwarg_of, list_contents, mention_any, mk, new_calls, src_functions

PP = 's3ql.common.ParallelPipeline'


def awaited(tr, i):
    '''The result of the call at event i is awaited.'''
    e = tr.ev[i]
    for x in tr.ev[i + 1:]:
        if x.kind == 'await' and x.name == e.name:
            return True
        if x.kind == 'fault' and x.name == e.name or x.kind == 'call' and x.name == e.name:
            return x.kind == 'fault'
    return tr.o.kind == 'raise' and i >= len(tr.ev) - 3


def span(tr, t):
    '''(index of enter, index of exit) of a context manager.'''
    a = b = None
    for i, e in enumerate(tr.ev):
        if e.recv == t and e.kind == 'enter' and a is None:
            a = i
        elif e.recv == t and e.kind == 'exit':
            b = i
    return a, b


def closed(tr, t):
    '''Index at which a channel is closed on this path.'''
    a, b = span(tr, t)
    if b is not None:
        return b
    for i, e in tr.calls('aclose', 'close'):
        if e.recv == t:
            return i
    return None


# -------------------------------------------------------------------------------------------
# T05

class PipePolicy(OwnPolicy):
    max_states = 4000
    max_returns = 4000


def pipeline_run(ctx):
    q = PP + '.run'
    fi = ctx.repo.func(q)
    slf = ('self', PP)
    nw = ('param', 'n_workers', fi.qual)
    n = 0
    for faults in ({}, {'send': ('builtins.Exception',)}, {'produce': ('builtins.Exception',)}):
        eng, outs = ctx.run(fi, PipePolicy(faults), TraceMonitor())
        for o in outs:
            tr = Trace(o)
            failed = any(e.kind == 'fault' for e in tr.ev)
            if failed:
                if o.kind == 'return' or tr.calls('finalize'):
                    sviol(ctx, 'run', fi, eng, o, 'continues although producing or handing out work failed', 'failure')
                else:
                    ctx.ok('run', fi.qual)
                continue
            if o.kind != 'return':
                continue
            n += 1
            bad = None
            pr = [(i, e) for i, e in tr.calls('produce') if e.recv == slf]
            nur = [(i, e) for i, e in tr.calls('open_nursery')]
            chans = [(i, e) for i, e in enumerate(tr.ev) if e.kind == 'call' and (e.name == 'open_memory_channel' or mention_name(
                e.recv, 'trio.open_memory_channel'))]
            if len(pr) != 1 or not awaited(tr, pr[0][0]):
                bad = 'does not produce the work exactly once'
            elif len(nur) != 1 or len(chans) != 1:
                bad = 'does not use one nursery and one channel'
            if bad:
                sviol(ctx, 'run', fi, eng, o, bad, bad)
                continue
            jobs, ch, nt = pr[0][1].res, chans[0][1].res, nur[0][1].res
            na, nb = span(tr, nt)
            snd, rcv = item(ch, 0), item(ch, 1)
            bound = kwarg_of(tr, chans[0][0], 0, 'max_buffer_size')
            fin = [i for i, e in tr.calls('finalize') if e.recv == slf]
            sends = [(i, e) for i, e in enumerate(tr.ev) if e.kind == 'call' and e.name.startswith('send')]
            its = [(i, e) for i, e in enumerate(tr.ev) if e.kind == 'iter' and e.recv == jobs]
            ends = [i for i, e in enumerate(tr.ev) if e.kind == 'loopexit' and jobs in (e.res, e.recv)]
            spawns = [(i, e) for i, e in enumerate(tr.ev) if e.kind == 'spawn']
            wit = [(i, e) for i, e in enumerate(tr.ev) if e.kind == 'iter' and is_range(e.recv)]
            wex = [e for e in tr.ev if e.kind == 'loopexit' and is_range(e.res if e.res else e.recv)]
            c = closed(tr, snd)
            if na is None or nb is None:
                bad = 'does not wait for the workers'
            elif len(ends) != 1:
                bad = 'does not hand out all work'
            elif len(sends) != len(its) or any(e.recv != snd or e.name != 'send' or not awaited(tr, i) or list(e.args) != [x.res] or i < j
                                               for (i, e), (j, x) in zip(sends, its)):
                bad = 'does not hand out every item exactly once'
            elif c is None or not (ends[0] < c < nb):
                bad = 'does not close the channel after all items were handed out'
            elif fin != [fin[0]] if fin else True:
                bad = 'does not run the final step exactly once'
            elif fin[0] < nb:
                bad = 'runs the final step before all workers have ended'
            elif not wex or any(not workers_ok(tr, e.res if e.res else e.recv, nw, jobs) for e in wex):
                bad = 'may start fewer workers than there is work for'
            elif len(spawns) != len(wit) or any(e.name != '_drive_consumer' and not drives(ctx, e) for i, e in spawns):
                bad = 'does not start one worker per iteration'
            elif any(not (len(e.args) == 1 and is_res(e.args[0], 'clone') and rcv in res_args(e.args[0])) for i, e in spawns):
                bad = 'does not give each worker its own end of the channel'
            elif spawns and len({[x for x in tr.ev[:i] if x.kind == 'call' and x.name == 'clone'][-1].node and len(
                    [x for x in tr.ev[:i] if x.kind == 'call' and x.name == 'clone']) for i, e in spawns}) != len(spawns):
                bad = 'does not give each worker its own end of the channel'
            elif any(not na < i < nb or i > (sends[0][0] if sends else nb) for i, e in spawns):
                bad = 'starts workers only after handing out work'
            elif closed(tr, rcv) is None or spawns and closed(tr, rcv) < spawns[-1][0]:
                bad = 'keeps the receiving end open, so that handing out work blocks if all workers have ended'
            elif sends and closed(tr, rcv) > sends[0][0]:
                bad = 'keeps the receiving end open, so that handing out work blocks if all workers have ended'
            if bad:
                sviol(ctx, 'run', fi, eng, o, bad, bad)
            else:
                ctx.ok('run', fi.qual)
    ctx.floor('run', 4)


def mention_name(t, name):
    return t is not None and t[0] == 'item' and t[1][0] in ('global', 'attr') and name in t[1]


def is_range(t):
    return bool(t) and t[0] == 'pure' and t[1] == 'range'


def drives(ctx, e):
    return False


def workers_ok(tr, rng, nw, jobs):
    a = rng[2]
    if len(a) == 2 and a[0] == const(0):
        a = a[1:]
    if len(a) != 1:
        return False
    a = a[0]
    ln = ('pure', 'len', (jobs,))
    if a == nw:
        return True
    if a == ln:
        return True if any(v for t, v in tr.facts() if t[0] == 'lt' and t[1:] == (ln, nw)) else any(
            not v for t, v in tr.facts() if t[0] == 'lt' and t[1:] == (nw, ln))
    return a[0] == 'pure' and a[1] == 'min' and set(a[2]) == {nw, ln}


def pipeline_worker(ctx):
    q = PP + '._drive_consumer'
    fi = ctx.repo.func(q)
    ch = ('param', fi.node.args.args[1].arg, fi.qual)
    slf = ('self', PP)
    for faults in ({}, {'consume': ('builtins.Exception',)}):
        eng, outs = ctx.run(fi, PipePolicy(faults), TraceMonitor())
        for o in outs:
            tr = Trace(o)
            cs = [(i, e) for i, e in tr.calls('consume') if e.recv == slf]
            bad = None
            failed = any(e.kind == 'fault' for e in tr.ev)
            if failed and o.kind == 'return':
                bad = 'hides the failure of a worker'
            elif len(cs) != 1 or ch not in cs[0][1].args:
                bad = 'does not process the items of its channel'
            elif not failed and not awaited(tr, cs[0][0]):
                bad = 'does not wait for the worker'
            elif closed(tr, ch) is None:
                bad = 'does not close its end of the channel, so that a failure of all workers is not noticed'
            if bad:
                sviol(ctx, 'worker', fi, eng, o, bad, bad)
            else:
                ctx.ok('worker', fi.qual)
    ctx.floor('worker', 2)


WORK = ('readinto_fh', 'lookup', 'delete', 'write_fh', 'store', 'fetch', 'unlink')


def pipeline_users(ctx):
    repo = ctx.repo
    subs = [c.qual for c in repo.subclasses(repo.cls(PP)) if c.qual != PP]
    if len(subs) < 4:
        raise AnalysisError('pipelines not found')
    for cq in subs:
        ci = repo.cls(cq)
        for name in ('run', '_drive_consumer', '__new__', '__getattribute__'):
            if name in ci.methods:
                ctx.violate('users', '%s.%s' % (cq, name), '%s replaces %s of the pipeline' % (last(cq), name), ci.methods[name].loc())
        fi = ci.methods.get('consume')
        if fi is None:
            continue
        jobs = ('param', fi.node.args.args[1].arg, fi.qual)
        for err in ('xmod.SomeError', 'builtins.OSError', 'builtins.ValueError', 'trio.Cancelled'):
            eng, outs = ctx.run(fi, PipePolicy({k: (err,) for k in WORK}), TraceMonitor())
            for o in outs:
                tr = Trace(o)
                bad = None
                fl = [i for i, e in enumerate(tr.ev) if e.kind == 'fault']
                if fl:
                    if o.kind == 'return' or any(e.kind == 'iter' for e in tr.ev[fl[0]:]):
                        bad = 'goes on after a failure'
                elif o.kind == 'return' and not any(e.kind == 'loopexit' and jobs in (e.res, e.recv) for e in tr.ev):
                    bad = 'stops although there is work left'
                if bad:
                    sviol(ctx, 'users', fi, eng, o, bad, bad)
                else:
                    ctx.ok('users', fi.qual)
        eng, outs = ctx.run(fi, PipePolicy(), TraceMonitor())
        for o in outs:
            tr = Trace(o)
            if o.kind != 'return':
                continue
            its = [i for i, e in enumerate(tr.ev) if e.kind == 'iter' and e.recv == jobs]
            for a, b in zip(its, its[1:] + [len(tr.ev)]):
                w = [(i, e) for i, e in enumerate(tr.ev) if a < i < b and e.kind == 'call' and e.name in WORK]
                if not any(mention_any(list(e.args) + [x for _, x in e.kw], tr.ev[a].res) for i, e in w) and not skips(tr, a, b):
                    sviol(ctx, 'users', fi, eng, o, 'does not process an item', 'item')
                elif any(not awaited(tr, i) for i, e in w):
                    sviol(ctx, 'users', fi, eng, o, 'does not wait for an operation', 'await')
                else:
                    ctx.ok('users', fi.qual)
    # callers wait for the pipeline
    for f in src_functions(ctx):
        for n in walk_own(f.node):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'run'):
                continue
            if not (any(k.arg == 'n_workers' for k in n.keywords) or called(ctx, f, n) == PP + '.run'):
                continue
            eng, outs = ctx.run(f, PipePolicy({'run': ('builtins.Exception',)}), TraceMonitor())
            for o in outs:
                tr = Trace(o)
                bad = None
                fl = [i for i, e in enumerate(tr.ev) if e.kind == 'fault' and e.recv is not None or e.kind == 'fault']
                for i, e in tr.calls('run'):
                    if not fl and not awaited(tr, i):
                        bad = 'does not wait for the pipeline'
                if fl and o.kind == 'return':
                    bad = 'hides a failure of the pipeline'
                if bad:
                    sviol(ctx, 'users', f, eng, o, bad, bad)
                else:
                    ctx.ok('users', f.qual)
    ctx.floor('users', 20)


def skips(tr, a, b):
    '''The item needs no work, as decided from its own contents.'''
    return any(e.kind == 'if' and mention(e.recv, tr.ev[a].res) for e in tr.ev[a:b])


@check('T05', explanation=(
    'ParallelPipeline.run and _drive_consumer are executed abstractly along every path, with failures of producing and of sending '
    'injected: every item that the producer yields is sent (awaited) exactly once, to the end; each worker is started in the nursery '
    'with its own clone of the receiving end, which is closed in the orchestrator; the sending end is closed before the nursery is '
    'left; the final step runs once after the nursery on the normal path only; the number of workers is only limited by the number of '
    'items. For every subclass the consumer awaits its operation for each item, runs to the end of its channel, and lets every '
    'unexpected failure of an operation escape; no subclass overrides the orchestration and every caller awaits it.'))
def t05(ctx):
    ctx.rule('run', 'each item is sent to one worker, failures escape, and the final step runs last')
    ctx.rule('worker', 'a worker processes its channel and lets failures escape')
    ctx.rule('users', 'consumers process each item, and pipelines are awaited')
    pipeline_run(ctx)
    pipeline_worker(ctx)
    pipeline_users(ctx)


# -------------------------------------------------------------------------------------------
# T02

V = 's3ql.verify'
NO_OBJ = 's3ql.backends.common.NoSuchObject'
BAD_OBJ = 's3ql.backends.common.CorruptedObjectError'


class VerifyPolicy(OwnPolicy):
    stable = frozenset(('full', 'missing_fh', 'corrupted_fh', 'backend', 'offset', 'exp_hash', 'exp_size', 'obj_id'))
    max_states = 4000
    max_returns = 4000


def records(tr, a, b):
    '''[(index, key, file)] of lines written to a file.'''
    out = []
    for i, e in enumerate(tr.ev):
        if not a < i < b or e.kind != 'call':
            continue
        if e.name == 'print' and dict(e.kw).get('file') is not None and e.args:
            out.append((i, e.args[0], dict(e.kw)['file']))
        elif e.name == 'write' and e.recv is not None and e.args and is_attr(e.recv, 'missing_fh') + is_attr(e.recv, 'corrupted_fh'):
            v = e.args[0]
            if v[0] == 'fmt' and v[1] == '{}\n':
                v = v[2][0]
            elif v[0] == 'fmt' and v[1].endswith('\n'):
                v = ('fmt', v[1][:-1]) + v[2:]
            elif v[0] == 'pure' and v[1] in ('+', 'add', 'Add') and v[2][-1] == const('\n'):
                v = v[2][0]
            out.append((i, v, e.recv))
    return out


def verify_consume(ctx):
    q = V + '.RetrieveObjects'
    fi = ctx.repo.func(q + '.consume')
    slf = ('self', q)
    jobs = ('param', fi.node.args.args[1].arg, fi.qual)
    full = ('true', ('attr', slf, 'full'))
    miss, corr = ('attr', slf, 'missing_fh'), ('attr', slf, 'corrupted_fh')
    seen = set()
    for err in (None, NO_OBJ, BAD_OBJ):
        faults = {k: (err,) for k in ('readinto_fh', 'lookup', 'fetch')} if err else {}
        eng, outs = ctx.run(fi, VerifyPolicy(faults), TraceMonitor())
        for o in outs:
            tr = Trace(o)
            bad = None
            its = [i for i, e in enumerate(tr.ev) if e.kind == 'iter' and e.recv == jobs]
            ends = [i for i, e in enumerate(tr.ev) if e.kind == 'loopexit' and jobs in (e.res, e.recv)]
            fl = [i for i, e in enumerate(tr.ev) if e.kind == 'fault']
            if o.kind != 'return':
                if err:
                    bad = 'stops at a %s object' % ('missing' if err == NO_OBJ else 'damaged')
                    sviol(ctx, 'recorded', fi, eng, o, bad, bad)
                continue
            if not ends:
                sviol(ctx, 'recorded', fi, eng, o, 'ends although there are objects left', 'early')
                continue
            for a, b in zip(its, its[1:] + ends[-1:]):
                job = tr.ev[a].res
                want = ('attr', job, 'obj_id')
                rec = records(tr, a, b)
                ops = [(i, e) for i, e in enumerate(tr.ev) if a < i < b and e.kind == 'call' and e.name in ('readinto_fh', 'lookup', 'fetch')]
                f = [i for i in fl if a < i < b]
                isfull = tr.val(full)
                if len(ops) != 1 or not awaited(tr, ops[0][0]) or not is_attr(ops[0][1].recv, 'backend'):
                    bad = 'does not look at the object exactly once'
                    break
                i, op = ops[0]
                key = op.args[0]
                if not (key[0] == 'fmt' and key[1] == 's3ql_data_{}' and key[2] == (want,)):
                    bad = 'looks at %s instead of the object' % show(key)
                elif any(k != key for _, k, _ in rec):
                    bad = 'records another key'
                elif op.name == 'lookup' and isfull is not False:
                    bad = 'does not read the contents although asked to'
                elif len(rec) > 1:
                    bad = 'records an object twice'
                elif f:
                    file = miss if err == NO_OBJ else corr
                    if [x[2] for x in rec] != [file]:
                        bad = 'does not record a %s object in the right file' % ('missing' if err == NO_OBJ else 'damaged')
                    seen.add((err, op.name))
                else:
                    bad = content_ok(tr, i, op, b, job, rec, corr, isfull)
                    seen.add((None, op.name, bool(rec)))
                if bad:
                    break
            if bad:
                sviol(ctx, 'recorded', fi, eng, o, bad, bad)
            else:
                ctx.ok('recorded', fi.qual)
    ctx.floor('recorded', 8)


def content_ok(tr, i, op, b, job, rec, corr, isfull):
    '''The contents are compared as they have to be.'''
    if op.name == 'lookup' or not isfull:
        return 'records an object that was found' if rec else None
    h, sz = ('attr', job, 'exp_hash'), ('attr', job, 'exp_size')
    hashed = [(a, v) for a, v in tr.facts() if a[0] == 'eq' and h in a[1:]]
    sized = [(a, v) for a, v in tr.facts() if a[0] == 'eq' and sz in a[1:]]
    differs = any(v is False for _, v in hashed + sized)
    if rec:
        if not differs:
            return 'records an object without a difference'
        return None if rec[0][2] == corr else 'does not record a damaged object in the right file'
    if differs:
        return 'does not record an object that differs'
    if not hashed:
        return 'does not compare the contents with the recorded hash'
    other = [x for x in hashed[-1][0][1:] if x != h]
    if op.name == 'fetch':
        return None if any(mention(x, op.res) for x in other) else 'compares the hash of something else'
    buf = kwarg(op, 1, 'ofh') or kwarg(op, 1, 'fh')
    src = []
    for x in other:
        for s in subterms(x):
            src += [j for j, e in enumerate(tr.ev) if i < j < b and e.kind == 'call' and e.res == s and mention_any(
                list(e.args) + ([e.recv] if e.recv else []), buf)]
    if not src:
        return 'compares the hash of something else'
    at = min(src)
    fresh = any(e.kind == 'call' and e.res == buf and max([k for k, x in enumerate(tr.ev[:i]) if x.kind == 'iter']) < j
                for j, e in enumerate(tr.ev[:i]))
    pos = [(j, e) for j, e in enumerate(tr.ev) if e.kind == 'call' and e.recv == buf and e.name in ('seek', 'truncate', 'tell')]
    start = max([j for j, e in enumerate(tr.ev[:i]) if e.kind == 'iter'])
    rew = [j for j, e in pos if e.name == 'seek' and list(e.args)[:1] == [const(0)]]
    if not fresh and not any(start < j < i for j in rew):
        return 'writes behind the contents of the previous object'
    cut = [j for j, e in pos if e.name == 'truncate' and (not e.args and i < j < at and not any(i < k < j for k in rew) or list(
        e.args) == [const(0)] and start < j < i)]
    if not fresh and not cut:
        return 'compares contents that still have the end of the previous object'
    if tr.ev[at].name not in ('getvalue', 'getbuffer') and not any(i < j < at and not [k for k in cut if k > j and tr.ev[k].args] for j in rew):
        return 'does not compare the whole contents'
    if tr.ev[at].name not in ('getvalue', 'getbuffer', 'sha256_fh', 'file_digest', 'read', 'sha256', 'new'):
        return 'compares the hash of something else'
    return None


def verify_objects(ctx):
    from sa.sqlp import parse

    q = V + '.RetrieveObjects'
    slf = ('self', q)
    pr = ctx.repo.func(q + '.produce')
    eng, outs = ctx.run(pr, VerifyPolicy(), TraceMonitor())
    gens = set()
    for o in outs:
        if o.kind != 'return':
            continue
        v = o.val
        while is_res(v, 'iter', 'list', 'tuple') and res_args(v):
            v = res_args(v)[-1]
        name = last(v[1]) if v[0] == 'res' else None
        if v[0] == 'res' and slf in res_args(v) and name in ctx.repo.cls(q).methods:
            gens.add(name)
            ctx.ok('all', pr.qual)
        else:
            sviol(ctx, 'all', pr, eng, o, 'does not hand out all objects: ' + show(v), 'produce')
    for g in gens:
        fi = ctx.repo.func('%s.%s' % (q, g))
        eng, outs = ctx.run(fi, VerifyPolicy(), TraceMonitor())
        off = ('attr', slf, 'offset')
        for o in outs:
            tr = Trace(o)
            bad = None
            qs = [(i, e) for i, e in tr.calls('query', 'query_typed', 'execute')]
            if o.kind == 'raise':
                continue
            if len(qs) != 1 or not is_const(qs[0][1].args[0]):
                sviol(ctx, 'all', fi, eng, o, 'does not read the list of objects once', 'query')
                continue
            text = cval(qs[0][1].args[0])
            st = parse(text)
            cols = select_columns(text)
            low = ' %s ' % ' '.join(text.lower().split())
            if st.kind.upper() != 'SELECT' or any(' %s ' % w in low for w in ('where', 'limit', 'join', 'distinct', 'group', 'having', 'offset')) or \
                    [t.lower() for t in from_tables(text)] != ['objects']:
                sviol(ctx, 'all', fi, eng, o, 'does not read all objects: ' + text, 'query')
                continue
            res = qs[0][1].res
            its = [(i, e) for i, e in enumerate(tr.ev) if e.kind == 'iter' and mention(e.recv, res)]
            ends = [i for i, e in enumerate(tr.ev) if e.kind == 'loopexit' and mention(e.res or e.recv or NONE, res)]
            if not ends:
                sviol(ctx, 'all', fi, eng, o, 'ends although there are objects left', 'early')
                continue
            for n, (a, e) in enumerate(its):
                b = its[n + 1][0] if n + 1 < len(its) else ends[-1]
                enum = e.recv[0] == 'pure' and e.recv[1] == 'enumerate'
                row = item(e.res, 1) if enum else e.res
                start = 0
                if enum:
                    for x in e.recv[2][1:]:
                        x = x[2] if x[0] == 'tuple' and x[1] == const('start') else x
                        start = cval(x) if is_const(x) else None
                ys = [x for x in tr.ev[a:b] if x.kind == 'yield']
                if len(ys) > 1:
                    bad = 'hands out an object twice'
                elif ys:
                    y = ys[0].res if ys[0].res and ys[0].res[0] in ('new', 'tuple') else ys[0].args[0]
                    mkc = [x for x in tr.ev[a:b] if x.kind == 'call' and x.res == y]
                    got = {}
                    if mkc:
                        names = ['obj_id', 'exp_hash', 'exp_size']
                        got = dict(zip(names, mkc[0].args))
                        got.update(dict(mkc[0].kw))
                    for k, c in (('obj_id', 'id'), ('exp_hash', 'hash'), ('exp_size', 'length')):
                        if c not in cols or got.get(k) != item(row, cols.index(c)):
                            bad = 'compares an object with another value of %s' % c
                elif not skipped(tr, a, b, item(e.res, 0), off, start):
                    bad = 'leaves out an object'
                if bad:
                    break
            if bad:
                sviol(ctx, 'all', fi, eng, o, bad, bad)
            else:
                ctx.ok('all', fi.qual)
    ctx.floor('all', 4)


def select_columns(text):
    t = ' '.join(text.split())
    low = t.lower()
    return [c.strip().split('.')[-1].lower() for c in t[low.index('select') + 6:low.index(' from ')].split(',')]


def from_tables(text):
    t = ' '.join(text.split())
    rest = t[t.lower().index(' from ') + 6:]
    for w in (' where ', ' order ', ' group ', ' limit '):
        if w in rest.lower():
            rest = rest[:rest.lower().index(w)]
    return [x.strip().split(' ')[0] for x in rest.split(',')]


def skipped(tr, a, b, idx, off, start):
    '''The object is one of the first offset objects.'''
    for e in tr.ev[a:b]:
        if e.kind == 'if' and e.recv[0] in ('lt', 'le'):
            x, y = e.recv[1:]
            # position = idx - start (from 0) must be less than offset
            if start == 1 and (e.recv == ('lt', off, idx) and e.res is False):
                return True
            if start == 0 and e.recv == ('lt', idx, off) and e.res is True:
                return True
    return False


def verify_exit(ctx):
    q = V + '.verify'
    fi = ctx.repo.func(q)
    eng, outs = ctx.run(fi, VerifyPolicy(), TraceMonitor())
    for o in outs:
        tr = Trace(o)
        if o.kind != 'return' and not tr.calls('exit'):
            continue
        bad = None
        ro = [(i, e) for i, e in tr.calls('retrieve_objects')]
        if len(ro) != 1 or not awaited(tr, ro[0][0]):
            sviol(ctx, 'exit', fi, eng, o, 'does not verify the objects', 'none')
            continue
        i, e = ro[0]
        g = [kwarg(e, n, k) for n, k in enumerate(('db', 'backend', 'corrupted_fh', 'missing_fh', 'worker_count', 'full', 'offset'))]
        meta = [x.res for _, x in tr.calls('get_metadata')]
        ofiles = {x.res: x.args for _, x in tr.calls('_open_new_file')}
        P = {n: ('param', n, fi.qual) for n in ('missing_file', 'corrupted_file', 'data', 'start_with')}
        if not meta or g[0] != item(meta[-1], 1):
            bad = 'does not use the metadata of the file system'
        elif g[5] != P['data']:
            bad = 'does not verify the contents when asked to'
        elif g[6] != P['start_with']:
            bad = 'does not start at the given object'
        elif not ofiles.get(g[2]) or ofiles[g[2]][0] != P['corrupted_file'] or not ofiles.get(g[3]) or ofiles[g[3]][0] != P['missing_file']:
            bad = 'records in other files'
        if not bad:
            told = {}
            for k, x in enumerate(tr.ev):
                if x.kind == 'if' and k > i:
                    for t in (g[2], g[3]):
                        a = x.recv
                        if a[0] == 'true' and is_res(a[1], 'tell') and t in res_args(a[1]):
                            told[t] = x.res
                        elif a[0] == 'eq' and const(0) in a[1:] and any(is_res(z, 'tell') and t in res_args(z) for z in a[1:]):
                            told[t] = not x.res
                        elif a[0] == 'lt' and a[1] == const(0) and is_res(a[2], 'tell') and t in res_args(a[2]):
                            told[t] = x.res
            ex = [x for _, x in tr.calls('exit')]
            raised = any(told.values())
            clean = len(told) == 2 and not raised
            if ex:
                if not raised:
                    bad = 'reports failure without a reason'
                elif not ex[0].args or not is_const(ex[0].args[0]) or not cval(ex[0].args[0]):
                    bad = 'exits with status 0 although something was recorded'
            elif not clean:
                bad = 'exits with status 0 although something was recorded'
            gone = [x for _, x in tr.calls('unlink', 'remove') if mention_any(x.args, g[2]) or mention_any(x.args, g[3])]
            if gone and not clean:
                bad = bad or 'removes the reports'
        if bad:
            sviol(ctx, 'exit', fi, eng, o, bad, bad)
        else:
            ctx.ok('exit', fi.qual)
    ro = ctx.repo.func(V + '.retrieve_objects')
    eng, outs = ctx.run(ro, VerifyPolicy(), TraceMonitor())
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        new = new_calls(tr, V + '.RetrieveObjects')
        run = [(i, e) for i, e in tr.calls('run')]
        bad = None
        if len(new) != 1 or len(run) != 1 or not awaited(tr, run[0][0]):
            bad = 'does not run the verification'
        else:
            e = new[0][1] if isinstance(new[0], tuple) and isinstance(new[0][0], int) else new[0]
            got = dict(zip(('db', 'backend', 'corrupted_fh', 'missing_fh', 'full', 'offset'), e.args))
            got.update(dict(e.kw))
            for k in ('db', 'backend', 'corrupted_fh', 'missing_fh', 'full', 'offset'):
                if got.get(k) != ('param', k, ro.qual):
                    bad = 'does not pass on %s' % k
        if bad:
            sviol(ctx, 'exit', ro, eng, o, bad, bad)
        else:
            ctx.ok('exit', ro.qual)
    ctx.floor('exit', 4)


@check('T02', explanation=(
    'Every path of the verification worker is followed for an object that is found, missing and damaged: exactly one awaited lookup '
    '(or, with the full option, read) of the key of the object; missing and damaged objects are recorded in the right report and the '
    'loop goes on; with the full option an object is left unrecorded only if the hash of the whole, freshly written and truncated '
    'buffer equals the recorded hash, and recorded only after a comparison failed. The list of objects is a query over the whole '
    'table whose rows are all handed out except for those before the start index; the command exits 0 only if both reports are empty.'))
def t02(ctx):
    ctx.rule('recorded', 'each object is looked at once and recorded exactly if it is missing, damaged or different')
    ctx.rule('all', 'all objects of the table are handed out')
    ctx.rule('exit', 'the exit status tells if something was recorded')
    verify_consume(ctx)
    verify_objects(ctx)
    verify_exit(ctx)


# -------------------------------------------------------------------------------------------
# T07

U = 's3ql.umount'


class UmountPolicy(OwnPolicy):
    while_iters = 14
    widen = 12
    max_states = 4000
    max_returns = 4000

    def inline(self, fi, eng):
        return super().inline(fi, eng) and fi.name != 'get_cmdline'


def commands(tr):
    '''[(index, words or None, result)] of the programs that are run.'''
    out = []
    for i, e in enumerate(tr.ev):
        if e.kind == 'call' and e.qual in ('subprocess.call', 'subprocess.run', 'subprocess.check_call') and e.args:
            a = e.args[0]
            c = list_contents(tr, a) if a[0] == 'obj' else list(a[1:]) if a[0] == 'tuple' else None
            out.append((i, c, e))
    return out


def status_zero(tr, e, upto=None):
    '''Whether the program is known to have succeeded on this path (None: not decided).'''
    r = None
    for a, v in tr.facts(upto):
        t = e.res
        for t in (e.res, ('attr', e.res, 'returncode')):
            if a[0] == 'eq' and set(a[1:]) == {t, const(0)}:
                r = v
            elif a == ('true', t):
                r = not v
    return r


def umount_blocking(ctx):
    q = U + '.blocking_umount'
    fi = ctx.repo.func(q)
    mp = ('param', fi.node.args.args[0].arg, fi.qual)
    ends = 0
    for faults in ({}, {'kill': ('builtins.OSError',)}, {'setxattr': ('builtins.OSError',)}, {'getxattr': ('builtins.OSError',)}):
        eng, outs = ctx.run(fi, UmountPolicy(faults), TraceMonitor())
        for o in outs:
            tr = Trace(o)
            bad = None
            cmds = commands(tr)
            fus = [(i, c, e) for i, c, e in cmds if c and c[0] == const('fuser')]
            ums = [(i, c, e) for i, c, e in cmds if (i, c, e) not in fus]
            flush = [(i, e) for i, e in tr.calls('setxattr') if len(e.args) > 1 and e.args[1] == const('s3ql_flushcache!')]
            xfl = [i for i, e in enumerate(tr.ev) if e.kind == 'fault' and e.name in ('setxattr', 'getxattr') or e.kind == 'fault' and fault_name(
                tr, i) in ('setxattr', 'getxattr')]
            if not fus or mp not in fus[0][1]:
                sviol(ctx, 'order', fi, eng, o, 'does not look if the mount point is in use', 'in-use')
                continue
            used = status_zero(tr, fus[0][2])
            if used is not False:
                # in use (or unknown): refuse
                if not (exc_name(o) or '').endswith('.MountInUseError') or flush or ums:
                    bad = 'goes on although the mount point is in use'
                sviol(ctx, 'order', fi, eng, o, bad, bad) if bad else ctx.ok('order', fi.qual)
                continue
            if xfl:
                if o.kind == 'return' or ums:
                    bad = 'goes on although the cache was not flushed or the process is not known'
                sviol(ctx, 'order', fi, eng, o, bad, bad) if bad else ctx.ok('order', fi.qual)
                continue
            if o.kind != 'return':
                if ums and status_zero(tr, ums[-1][2]) is False and not (exc_name(o) or '').endswith('.UmountSubError'):
                    bad = 'reports the failure of the detaching as something else'
                sviol(ctx, 'order', fi, eng, o, bad, bad) if bad else ctx.ok('order', fi.qual)
                continue
            ends += 1
            pids = [(i, e) for i, e in tr.calls('getxattr') if len(e.args) > 1 and e.args[1] == const('s3ql_pid?')]
            lines = [(i, e) for i, e in tr.calls('get_cmdline')]
            if len(ums) != 1 or not ums[0][1] or mp not in ums[0][1] or any(x in (const('-l'), const('-z')) for x in ums[0][1]):
                bad = 'does not detach the mount point'
            elif ums[0][2].qual != 'subprocess.check_call' and status_zero(tr, ums[0][2]) is not True:
                bad = 'returns although detaching failed'
            elif not flush or flush[0][0] > ums[0][0]:
                bad = 'detaches the mount point without flushing the cache'
            elif not pids or pids[0][0] > ums[0][0]:
                bad = 'does not find out which process to wait for before detaching'
            elif not mention(flush[0][1].args[0], mp) or pids[0][1].args[0] != flush[0][1].args[0]:
                bad = 'talks to another file system'
            elif not lines or lines[0][0] > ums[0][0]:
                bad = 'does not remember the command line of the process before detaching'
            else:
                bad = gone(tr, ums[0][0], pids[0][1].res, lines[0][1].res)
            if bad:
                sviol(ctx, 'order', fi, eng, o, bad, bad)
            else:
                ctx.ok('order', fi.qual)
    if ends < 3:
        ctx.violate('order', q, 'the waiting for the serving process was not recognised', fi.loc())
    ctx.floor('order', 6)


def fault_name(tr, i):
    for e in reversed(tr.ev[:i]):
        if e.kind == 'call' and e.node == tr.ev[i].node:
            return e.name
    return None


def gone(tr, start, pid, first):
    '''The last look at the process showed that it has ended.'''
    about = [(i, e) for i, e in enumerate(tr.ev) if i > start and (e.kind == 'call' and e.name in ('kill', 'get_cmdline') or e.kind == 'fault')]
    if not about:
        return 'does not wait for the serving process'
    for i, e in about:
        if e.kind == 'call' and (not e.args or not mention(e.args[0], pid)):
            return 'looks at another process'
        if e.kind == 'call' and e.name == 'kill' and e.args[1:2] != (const(0),):
            return 'sends a signal to the process'
    i, e = about[-1]
    if e.kind == 'fault':
        return None if fault_name(tr, i) == 'kill' else 'goes on after another failure'
    if e.name == 'get_cmdline':
        for a, v in tr.facts():
            if a == ('isnone', e.res) and v or a[0] == 'eq' and set(a[1:]) == {e.res, first} and v is False:
                return None
        # nothing known about the earlier command line: treated as changed
    return 'returns while the serving process is still alive'


def umount_lazy(ctx):
    fi = ctx.repo.func(U + '.lazy_umount')
    eng, outs = ctx.run(fi, UmountPolicy(), TraceMonitor())
    for o in outs:
        tr = Trace(o)
        cmds = commands(tr)
        ok = [c for c in cmds if c[2].qual == 'subprocess.check_call' or status_zero(tr, c[2]) is True]
        if o.kind == 'return' and (not cmds or len(ok) != len(cmds)):
            sviol(ctx, 'status', fi, eng, o, 'hides a failure', 'lazy')
        else:
            ctx.ok('status', fi.qual)


def umount_status(ctx):
    fi = ctx.repo.func(U + '.umount')
    for name in ('MountInUseError', 'UmountSubError', 'UmountError'):
        cq = U + '.' + name
        code = class_value(ctx, cq, 'exitcode')
        if not isinstance(code, int) or not code:
            ctx.violate('status', cq, '%s has exit status %r' % (name, code), ctx.repo.cls(cq).mod.path if hasattr(ctx.repo.cls(cq).mod, 'path') else '')
        for f in ('lazy_umount', 'blocking_umount'):
            eng, outs = ctx.run(fi, UmountPolicy({f: (cq,)}), TraceMonitor())
            for o in outs:
                tr = Trace(o)
                fl = [i for i, e in enumerate(tr.ev) if e.kind == 'fault']
                ran = tr.calls('lazy_umount', 'blocking_umount')
                bad = None
                if fl:
                    ex = [e for i, e in tr.calls('exit') if i > fl[0]]
                    if o.kind == 'return':
                        bad = 'exits with status 0 although unmounting failed'
                    elif ex and (not ex[0].args or not (is_attr(ex[0].args[0], 'exitcode') or is_const(ex[0].args[0]) and cval(ex[0].args[0]))):
                        bad = 'exits with an unknown status although unmounting failed'
                elif o.kind == 'return' and len(ran) != 1:
                    bad = 'does not unmount'
                elif o.kind == 'return' and ran[0][1].name == 'lazy_umount' and tr.val(('true', ('param', 'lazy', fi.qual))) is not True:
                    bad = 'does not wait although it was not asked for a lazy unmount'
                if bad:
                    sviol(ctx, 'status', fi, eng, o, bad, bad)
                else:
                    ctx.ok('status', fi.qual)
    cl = ctx.repo.func(U + '.get_cmdline')
    eng, outs = ctx.run(cl, OwnPolicy({'open': ('builtins.FileNotFoundError',), 'read': ('builtins.ProcessLookupError',)}), TraceMonitor())
    for o in outs:
        if o.kind != 'return' and any(e.kind == 'fault' for e in o.st.auto):
            sviol(ctx, 'status', cl, eng, o, 'fails if the process ends while it is looked at', 'cmdline')
        else:
            ctx.ok('status', cl.qual)
    ctx.floor('status', 10)


def class_value(ctx, cq, name):
    for c in ctx.repo.mro(ctx.repo.cls(cq)):
        for n in c.node.body:
            tg = n.targets[0] if isinstance(n, ast.Assign) else n.target if isinstance(n, ast.AnnAssign) else None
            if isinstance(tg, ast.Name) and tg.id == name and isinstance(n.value, ast.Constant):
                return n.value.value
    return None


@check('T07', explanation=(
    'All paths of the unmount command with failures of each step: a mount point in use is refused before anything else; detaching '
    'comes after the flush request, the process number and its command line; a normal return needs a successful detaching and, as the '
    'last observation, that the process cannot be signalled, has no command line or another one. Failures of the flush, of the control '
    'file or of the detaching end with an exception, which the command turns into a non-zero status.'))
def t07(ctx):
    ctx.rule('order', 'refused while in use; flush, detach, and wait for the process to end')
    ctx.rule('status', 'failures are reported by the exit status')
    umount_blocking(ctx)
    umount_lazy(ctx)
    umount_status(ctx)


# -------------------------------------------------------------------------------------------
# T03

X = 'contrib.expire_backups'
CHANGES = ('rmtree', 'rename', 'replace', 'unlink', 'remove', 'rmdir', 'removedirs', 'renames', 'write', 'writelines', 'truncate', 'symlink',
           'link', 'move', 'copy', 'copyfile', 'copy2', 'copytree', 'mkdir', 'makedirs', 'call', 'run', 'check_call', 'Popen', 'system',
           'write_text', 'write_bytes', 'touch')
REMOVERS = ('s3ql.remove.main', 's3ql.remove.remove', 'shutil.rmtree')


def changes_files(e):
    if e.kind != 'call':
        return False
    if e.qual and (e.qual.startswith('s3ql.remove') or e.qual == 'shutil.rmtree'):
        return True
    if e.name == 'open':
        m = kwarg(e, 1, 'mode')
        return m is not None and not (is_const(m) and set(cval(m)) <= set('rbt'))
    if e.name in CHANGES:
        return not (e.recv is not None and e.recv[0] in ('obj', 'pure'))
    return False


def expire_main(ctx):
    fi = ctx.repo.func(X + '.expire_backups')
    P = {n: ('param', n, fi.qual) for n in ('cycles', 'state', 'dry_run', 'proportion_delete', 'reconstruct_state')}
    eng, outs = ctx.run(fi, VerifyPolicy(), TraceMonitor())
    dry = n = 0
    for o in outs:
        tr = Trace(o)
        bad = None
        pb = [(i, e) for i, e in tr.calls('process_backups')]
        touched = [(i, e) for i, e in enumerate(tr.ev) if changes_files(e)]
        for i, e in touched:
            if truth_before(tr, P['dry_run'], i) is not False:
                bad = 'changes files in a dry run'
        dry += bool(pb and not touched)
        if not bad and len(pb) > 1:
            bad = 'applies its rule twice'
        dels = [(i, e) for i, e in touched if e.qual in REMOVERS or e.name in ('rmtree', 'unlink', 'remove', 'rmdir')]
        exists = last_exists(tr, P['state'], pb[0][0] if pb else None)
        if len(set(exists)) > 1:
            continue                    # another process changes the state file
        blist = None
        if pb and not bad:
            i, e = pb[0]
            blist, st = kwarg(e, 0, 'backup_list'), kwarg(e, 1, 'state')
            if not (blist and any(is_res(s, 'listdir', 'scandir') for s in subterms(blist))) or not any(
                    x.kind == 'call' and x.name in ('match', 'fullmatch') for x in tr.ev[:i]):
                bad = 'does not look at the existing backups only'
            elif kwarg(e, 2, 'cycles') != P['cycles']:
                bad = 'uses other age ranges'
            else:
                bad = state_ok(tr, i, blist, st, exists, P)
        if bad:
            sviol(ctx, 'expire', fi, eng, o, bad, bad)
            continue
        td = pb[0][1].res if pb else None
        for i, e in dels:
            a = e.args[0] if e.args else NONE
            if a[0] == 'obj':
                c = list_contents(tr, a)
                a = c[0] if c and len(c) == 1 else a
            if td is None or i < pb[0][0] or not (a[0] == 'elem' and strip(a[1]) == td):
                bad = 'deletes something that the rule did not select'
            elif not proportion_ok(tr, i, td, blist, P['proportion_delete']):
                bad = 'deletes more than the allowed proportion of the backups'
        # state
        ops = [(i, e) for i, e in touched if (i, e) not in dels]
        ends = [i for i, e in enumerate(tr.ev) if e.kind == 'loopexit' and td is not None and strip(e.res or e.recv or NONE) == td]
        if not bad and o.kind == 'return' and pb and touched:
            n += 1
            bad = saved_ok(tr, pb[0], ends, ops, P, td)
        if bad:
            sviol(ctx, 'expire', fi, eng, o, bad, bad)
        else:
            ctx.ok('expire', fi.qual)
    if not dry or not n:
        ctx.violate('expire', fi.qual + ': paths', 'the normal and the dry run were not recognised', fi.loc())
    ctx.floor('expire', 12)


def strip(t):
    while t[0] == 'pure' and t[1] in ('sorted', 'list', 'tuple', 'reversed', 'set') and t[2]:
        t = t[2][0]
    return t


def truth_before(tr, t, i):
    return tr.val(('true', t), i)


def last_exists(tr, state, upto=None):
    '''What the program found out about its state file before it looked at the backups.'''
    r = []
    for a, v in tr.facts(upto):
        if a[0] == 'true' and is_res(a[1], 'exists', 'isfile') and res_args(a[1])[-1:] == (state,):
            r.append(v)
    return r


def state_ok(tr, i, blist, st, exists, P):
    '''The state the rule is applied to.'''
    thawed = is_res(st, 'thaw_basic_mapping')
    rebuilt = is_res(st, 'upgrade_to_state')
    if thawed:
        rd = [e for _, e in tr.calls('open', upto=i) if e.args and e.args[0] == P['state']]
        return None if rd else 'reads its state from another file'
    if exists[-1:] == [True]:
        return 'ignores the state file'
    # no state file
    single = any(a[0] == 'lt' and a[1] == const(1) and mention(a[2], blist) and v is False for a, v in tr.facts(i)) or any(
        a[0] == 'lt' and a[2] == const(2) and mention(a[1], blist) and v is True for a, v in tr.facts(i)) or tr.val(('true', blist), i) is False
    if rebuilt:
        if tr.val(('true', P['reconstruct_state']), i) is not True:
            return 'goes on without a state file although this was not asked for'
        return None if mention_any(res_args(st), blist) else 'rebuilds the state of something else'
    if not single:
        return 'goes on without a state file although there are several backups'
    return None


def proportion_ok(tr, i, td, blist, p):
    for a, v in tr.facts(i):
        if a[0] == 'lt' and a[1] == p and v is False and ratio(a[2], td, blist):
            return True
        if a[0] == 'lt' and a[2] == p and v is True and ratio(a[1], td, blist):
            return True
        if a[0] == 'lt' and v is False and a[2] == ('pure', 'len', (td,)) and a[1][0] == 'pure' and a[1][1] == 'Mult' and set(a[1][2]) == {
                p, ('pure', 'len', (blist,))}:
            return True
        if a[0] == 'true' and v is False and (a[1] == ('pure', 'len', (blist,)) or a[1] == blist):
            return True
    return False


def ratio(t, td, blist):
    return t[0] == 'pure' and t[1] == 'Div' and t[2] == (('pure', 'len', (td,)), ('pure', 'len', (blist,)))


def saved_ok(tr, pb, ends, ops, P, td):
    st = kwarg(pb[1], 1, 'state')
    opens = [(i, e) for i, e in ops if e.name == 'open']
    renames = [(i, e) for i, e in ops if e.name in ('rename', 'replace')]
    final = [(i, e) for i, e in renames if e.args[1:2] == (P['state'],)]
    if not ends:
        return 'does not delete all selected backups before it saves the state'
    if len(final) != 1:
        return 'does not replace its state file'
    src = final[0][1].args[0]
    wr = [(i, e) for i, e in opens if e.args[0] == src]
    if not wr or src == P['state']:
        return 'replaces its state file by something else'
    i, e = wr[-1]
    if i < ends[-1]:
        return 'saves its state before the backups are deleted'
    w = [(j, x) for j, x in enumerate(tr.ev) if x.kind == 'call' and x.name == 'write' and x.recv == e.res]
    ex = [j for j, x in enumerate(tr.ev) if x.kind == 'exit' and x.recv == e.res] or [j for j, x in tr.calls('close') if x.recv == e.res]
    if not ex or ex[0] > final[0][0]:
        return 'replaces its state file before the new one is complete'
    if len(w) != 1 or not any(is_res(s, 'freeze_basic_mapping') and st in res_args(s) for s in subterms(w[0][1].args[0])):
        return 'saves something else as its state'
    fr = [j for j, x in tr.calls('freeze_basic_mapping') if x.res in set(subterms(w[0][1].args[0]))]
    if fr and fr[-1] < pb[0]:
        return 'saves the state as it was before'
    for j, x in opens:
        if x.args[0] == P['state'] and True in last_exists(tr, P['state'])[:1]:
            return 'overwrites its state file in place'
    for j, x in renames:
        if (j, x) != final[0] and x.args[0] != P['state']:
            return 'moves something else'
    return None


def expire_rule(ctx):
    fi = ctx.repo.func(X + '.process_backups')
    bl, st = (('param', a.arg, fi.qual) for a in fi.node.args.args[:2])
    eng, outs = ctx.run(fi, OwnPolicy(), RuleMonitor())
    n = 0
    for o in outs:
        if o.kind != 'return':
            continue
        n += 1
        tr = Trace(o)
        v = o.val
        bad = None
        if not (v[0] == 'pure' and v[1] in ('Sub', 'difference') and len(v[2]) == 2 and v[2][0] in (('pure', 'set', (st,)), st)):
            if not (is_res(v, 'difference') and len(res_args(v)) == 2):
                sviol(ctx, 'rule', fi, eng, o, 'does not select the backups that are not kept: ' + show(v), 'result')
                continue
            v = ('pure', 'Sub', res_args(v))
        keep = v[2][1]
        for i, e in enumerate(tr.ev):
            if e.kind == 'delitem' and e.recv == st or e.kind == 'call' and e.recv == st and e.name == 'pop':
                k = e.args[0]
                c = strip(k[1]) if k[0] == 'elem' else NONE
                if c not in (o.val, v) and c != ('pure', 'Sub', (('pure', 'set', (st,)), bl)):
                    bad = 'forgets a backup that exists and is not deleted'
            elif e.recv == keep and e.kind == 'call' and e.name in ('discard', 'remove', 'clear', 'pop'):
                bad = 'gives up a backup that had to be kept'
        mine = [(i, e) for i, e in enumerate(tr.ev) if e.kind == 'iter' and is_res(e.recv, 'items') and st in res_args(e.recv)]
        for i, e in mine:
            out = inside = 0
            j = i + 1
            while j < len(tr.ev) and tr.ev[j].kind == 'if':
                a, val = tr.ev[j].recv, tr.ev[j].res
                if a[0] == 'lt' and mention(a[1], item(e.res, 1)):
                    inside += not val if is_low(a) else val
                    out += val if is_low(a) else not val
                j += 1
            kept = [x for x in tr.ev[j:] if x.kind == 'call' and x.name == 'add' and x.args[:1] == (item(e.res, 0),)]
            nxt = next((k for k in range(j, len(tr.ev)) if tr.ev[k].kind in ('iter', 'loopexit')), len(tr.ev))
            now = [x for x in tr.ev[j:nxt] if x.kind == 'call' and x.name == 'add' and x.args[:1] == (item(e.res, 0),) and x.recv == keep]
            del kept
            if not out and not now:
                bad = 'does not keep a backup although it is in the age range'
        if bad:
            sviol(ctx, 'rule', fi, eng, o, bad, bad)
        else:
            ctx.ok('rule', fi.qual)
    if not n:
        raise AnalysisError('process_backups has no normal path')
    ctx.floor('rule', 10)


def is_low(a):
    '''Comparison with the lower end of an age range.'''
    t = a[2]
    return t[0] == 'item' and t[2] == const(0)


class RuleMonitor(TraceMonitor):
    '''Only what concerns the state and the kept backups.'''

    def step(self, auto, ev, st, eng):
        if ev.kind == 'delitem' or ev.kind == 'call' and ev.name in ('add', 'discard', 'remove', 'clear', 'pop', 'difference') or ev.kind in (
                'iter', 'loopexit') and is_res(ev.recv or ev.res or NONE, 'items'):
            return super().step(auto, ev, st, eng)
        return auto

    def branch(self, auto, atom, val, st, eng):
        return super().branch(auto, atom, val, st, eng) if atom[0] == 'lt' else auto


@check('T03', explanation=(
    'Every path of the tool: any operation that changes files needs the fact that this is no dry run; only elements of the set that '
    'process_backups returned are deleted, after the comparison of its share with the limit; without a state file it goes on only if '
    'there is at most one backup or reconstruction was requested; the state passed to the rule is written completely to another file '
    'after the last deletion, and that file is then renamed. In process_backups the result is the state minus the kept backups, every '
    'backup found in an age range is added to these, and only missing or selected backups leave the state.'))
def t03(ctx):
    ctx.rule('expire', 'dry runs change nothing; only selected backups are deleted; the state is replaced last')
    ctx.rule('rule', 'backups that fall into an age range are kept')
    expire_main(ctx)
    expire_rule(ctx)


# -------------------------------------------------------------------------------------------
# T04

M = 's3ql.mount'
QUIET = ('debug', 'info', 'warning', 'error', 'exception', 'getLogger', 'removeHandler', 'callback', 'push_async_callback', 'push',
         'push_async_exit', 'enter_async_context', 'BadParameter', 'QuietError', 'Event', 'start_soon')


class MountPolicy(OwnPolicy):
    '''With *fail*, each call after the creation of the block cache may fail.'''

    def __init__(self, fail=False):
        super().__init__()
        self.fail = fail

    def raises(self, ev, eng):
        if not self.fail or ev.kind != 'call' or ev.name in QUIET or '?' in (ev.name or '?'):
            return ()
        return ('builtins.Exception',)


class MountMonitor(TraceMonitor):
    names = ('push_async_callback', 'callback', 'enter_async_context', 'open_nursery', 'create', 'Operations', 'write_params', 'upload_params',
             'execute', 'main', 'init', 'close', 'upload_metadata', 'AsyncExitStack', 'setup_exchook', 'push', 'push_async_exit', 'pop_all')

    def __init__(self, fail=False):
        self.fail = fail

    def step(self, auto, ev, st, eng):
        if ev.kind == 'fault' and not any(e.name == 'create' for e in auto):
            return super().step(auto, ev, st, eng)
        if ev.kind in ('spawn', 'raise', 'fault', 'enter', 'exit') or ev.kind == 'setattr' and ev.name in ('is_mounted', 'unmount_clean') or \
                ev.kind in ('call', 'await') and ev.name in self.names:
            return super().step(auto, ev, st, eng)
        return auto

    def branch(self, auto, atom, val, st, eng):
        if self.fail:
            return auto
        t = atom[1] if len(atom) > 1 else NONE
        if any(is_res(s, 'setup_exchook') for a in atom[1:] if isinstance(a, tuple) for s in subterms(a)) or t[:2] == ('obj', 'list'):
            return super().branch(auto, atom, val, st, eng)
        return auto


def closes_fuse(eng, t):
    '''The callback ends the serving of requests.'''
    if t == ('global', 'pyfuse3.close'):
        return True
    f = eng.closures.get(t[1]) if t[0] == 'closure' else None
    if f is None:
        return False
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'close' and isinstance(n.func.value, ast.Name) and
               n.func.value.id == 'pyfuse3' for n in ast.walk(f.node))


def method(t, base, name):
    return t[0] in ('bound', 'attr') and t[1:3] == (base, name)


def registered(tr, pred):
    for i, e in enumerate(tr.ev):
        if e.kind == 'call' and e.name in ('push_async_callback', 'callback', 'push', 'push_async_exit') and e.args and pred(e.args[0]):
            return i
    return None


def mount_order(ctx):
    fi = ctx.repo.func(M + '.mount')
    done = 0
    for fail in (False, True):
        eng, outs = ctx.run(fi, MountPolicy(fail), MountMonitor(fail))
        for o in outs:
            tr = Trace(o)
            bc = [(i, e) for i, e in tr.calls('create') if e.qual == 's3ql.block_cache.BlockCache.create']
            if not bc:
                if o.kind == 'return':
                    sviol(ctx, 'order', fi, eng, o, 'ends without serving the file system', 'none')
                continue
            bad = None
            fl = [i for i, e in enumerate(tr.ev) if e.kind == 'fault']
            lastev = fl[0] if fl else len(tr.ev)
            bi, b = bc[0]
            nur = [i for i, e in tr.calls('enter_async_context') if e.args and is_res(e.args[0], 'open_nursery') or e.args and 'open_nursery' in show(e.args[0])]
            cb = registered(tr, lambda t: method(t, b.res, 'destroy'))
            ops = [(i, e) for i, e in tr.calls('Operations')]
            co = registered(tr, lambda t: bool(ops) and method(t, ops[0][1].res, 'destroy'))
            init = [i for i, e in tr.calls('init') if e.qual == 'pyfuse3.init']
            cc = registered(tr, lambda t: closes_fuse(eng, t))
            main = [i for i, e in tr.calls('main') if e.qual == 'pyfuse3.main']
            spawns = [(i, e, registered(tr, lambda t, e=e: method(t, e.recv, 'stop'))) for i, e in enumerate(tr.ev) if e.kind == 'spawn']
            ex = [i for i, e in enumerate(tr.ev) if e.kind == 'exit' and e.name == 'AsyncExitStack']
            up = [i for i, e in tr.calls('upload_metadata')]
            dbc = [i for i, e in tr.calls('close') if 'Connection' in (e.qual or '')]
            failed_in = {fault_name(tr, i) for i in fl}
            if not nur or nur[0] > bi:
                bad = 'does not open the nursery of the workers first'
            elif cb is None and not (fl and 'create' in failed_in):
                bad = 'may end without flushing the block cache'
            elif ops and co is None and not (fl and 'Operations' in failed_in):
                bad = 'may end without writing the attribute cache back'
            elif init and cc is None and not (fl and 'init' in failed_in) and not (o.kind == 'raise' and exc_name(o).endswith('QuietError')):
                bad = 'may end without ending the serving of requests'
            elif any(s is None for _, _, s in spawns):
                bad = 'may end without stopping a periodic task'
            elif cb is not None and co is not None and co < cb or co is not None and cc is not None and cc < co or cb is not None and cc is not None and cc < cb:
                bad = 'registers the steps of the shutdown in the wrong order'
            elif any(s < co for _, _, s in spawns if co is not None and s is not None):
                bad = 'stops a periodic task only after the caches were flushed'
            if fl and not bad:
                before = fl[0]
                if o.kind == 'return':
                    bad = 'hides a failure'
                elif ex and before < ex[0] and [i for i in up if i > before]:
                    bad = 'uploads metadata after a failure'
            if not bad and o.kind == 'return':
                done += 1
                if not main or not awaited(tr, main[0]):
                    bad = 'does not serve the file system'
                elif not ex or ex[0] < main[0]:
                    bad = 'leaves the block of the shutdown steps before requests were served'
                elif not dbc or dbc[0] < ex[0]:
                    bad = 'closes the database before the caches were flushed'
                elif not up or up[0] < dbc[0] or not awaited(tr, up[0]):
                    bad = 'uploads the metadata before everything was written to the database'
                elif not fail:
                    bad = signals_ok(tr)
            if not bad and (main or spawns):
                use = min([i for i in main] + [i for i, _, _ in spawns])
                mk_ = [i for i, e in enumerate(tr.ev) if e.kind == 'setattr' and e.name == 'is_mounted' and setv(e) == TRUE and i < use]
                wp = [i for i, e in tr.calls('write_params') if mk_ and mk_[0] < i < use]
                upp = [i for i, e in tr.calls('upload_params') if mk_ and mk_[0] < i < use]
                ch = [i for i, e in tr.calls('execute')]
                if not mk_ or not wp or not upp or not awaited(tr, upp[0]):
                    bad = 'starts to work before the file system is marked in use'
                elif ch and (ch[0] < upp[0] or ch[0] < wp[0]):
                    bad = 'changes the database before the file system is marked in use'
            if bad:
                sviol(ctx, 'order', fi, eng, o, bad, bad)
            else:
                ctx.ok('order', fi.qual)
    if not done:
        ctx.violate('order', fi.qual + ': normal', 'mount has no normal path', fi.loc())
    ctx.floor('order', 20)


def setv(e):
    return e.args[0] if e.args else e.res


def signals_ok(tr):
    exc = [v for a, v in tr.facts() if a[0] == 'true' and is_res(a[1], 'setup_exchook')]
    if exc[-1:] != [False]:
        return 'ends normally although another thread failed'
    sig = [(a, v) for a, v in tr.facts() if not any(is_res(s, 'setup_exchook') for s in subterms(a[1]))]
    heap = tr.o.st.heap
    if not any(a[0] == 'eq' and v and any(len(c) == 2 and 'SIGINT' in str(c[1]) for c in (heap.get((x, '$orig'), ()) for x in a[1:])) for a, v in sig) and not any(
            a[0] == 'true' and a[1][:2] == ('obj', 'list') and v is False for a, v in sig):
        return 'ends normally although it was told to terminate'
    return None


def cache_destroy(ctx):
    q = 's3ql.block_cache.BlockCache'
    fi = ctx.repo.func(q + '.destroy')
    slf = ('self', q)
    keep = ('param', fi.node.args.args[1].arg, fi.qual)
    for err in ((), ('builtins.Exception',)):
        eng, outs = ctx.run(fi, OwnPolicy({'flush': err, 'drop': err} if err else {}), TraceMonitor())
        for o in outs:
            tr = Trace(o)
            bad = None
            if any(e.kind == 'fault' for e in tr.ev):
                if o.kind == 'return':
                    bad = 'hides that modified blocks could not be uploaded'
            elif o.kind == 'return':
                fl = [(i, e) for i, e in tr.calls('flush', 'drop') if e.recv == slf]
                ac = {n: [i for i, e in tr.calls('aclose') if e.recv == ('attr', slf, n)] for n in ('_upload_send', '_remove_send')}
                gone = [i for i, e in tr.calls('rmdir', 'rmtree', 'unlink')]
                if not fl or not awaited(tr, fl[0][0]):
                    bad = 'does not upload the modified blocks'
                elif any(not x or not awaited(tr, x[0]) for x in ac.values()):
                    bad = 'does not end the workers'
                elif min(x[0] for x in ac.values()) < fl[0][0]:
                    bad = 'ends the workers before the modified blocks are uploaded'
                elif fl[0][1].name == 'drop' and tr.val(('true', keep)) is True:
                    bad = 'drops the cache although it should be kept'
                elif gone and tr.val(('true', keep)) is not False:
                    bad = 'removes the cache although it should be kept'
                elif gone and gone[0] < fl[0][0]:
                    bad = 'removes the cache before the modified blocks are uploaded'
            if bad:
                sviol(ctx, 'steps', fi, eng, o, bad, bad)
            else:
                ctx.ok('steps', fi.qual)
    from . import cache2
    cache2.flush_complete(ctx, 'steps')
    q = 's3ql.fs.Operations'
    fi = ctx.repo.func(q + '.destroy')
    slf = ('self', q)
    for err in ((), ('builtins.Exception',)):
        eng, outs = ctx.run(fi, OwnPolicy({'forget': err} if err else {}), TraceMonitor())
        for o in outs:
            tr = Trace(o)
            bad = None
            fg = [(i, e) for i, e in tr.calls('forget') if e.recv == slf]
            de = [(i, e) for i, e in tr.calls('destroy', 'flush') if is_attr(e.recv or NONE, 'inodes')]
            if o.kind == 'return':
                if not fg or not awaited(tr, fg[0][0]) or not mention_any(fg[0][1].args, ('attr', slf, 'open_inodes')):
                    bad = 'does not give up the inodes that the kernel still knows'
                elif not de or de[0][0] < fg[0][0]:
                    bad = 'does not write the attribute cache back last'
            if bad:
                sviol(ctx, 'steps', fi, eng, o, bad, bad)
            else:
                ctx.ok('steps', fi.qual)
    ctx.floor('steps', 4)


class TaskPolicy(OwnPolicy):
    stable = frozenset()
    while_iters = 3
    loop_iters = 2

    def epochs(self, ev):
        return False


def tasks(ctx):
    cq = M + '.MetadataUploadTask'
    slf = ('self', cq)
    fi = ctx.repo.func(cq + '.run')
    eng, outs = ctx.run(fi, TaskPolicy(), TraceMonitor())
    waits_ = 0
    for o in outs:
        tr = Trace(o)
        bad = None
        for i, e in tr.calls('wait'):
            if not is_attr(e.recv or NONE, 'event'):
                continue
            waits_ += 1
            aw = [j for j, x in enumerate(tr.ev[:i]) if x.kind in ('await', 'enter', 'exit') and not sync_cm(x)]
            rs = [j for j, x in enumerate(tr.ev[:i]) if x.kind == 'setattr' and x.name == 'event' and x.recv == slf]
            lim = max(aw + rs + [-1])
            if not any(x.kind == 'if' and quit_of(x.recv, slf) and not x.res for x in tr.ev[lim + 1:i]):
                bad = 'waits without looking again if it was told to stop'
        if o.kind == 'return' and not any(x.kind == 'if' and quit_of(x.recv, slf) and x.res for x in tr.ev):
            bad = 'ends without having been told to stop'
        if bad:
            sviol(ctx, 'stop', fi, eng, o, bad, bad)
        else:
            ctx.ok('stop', fi.qual)
    if not waits_:
        ctx.violate('stop', fi.qual + ': wait', 'the waiting of the metadata upload task was not recognised', fi.loc())
    st = ctx.repo.func(cq + '.stop')
    eng, outs = ctx.run(st, OwnPolicy(), TraceMonitor())
    for o in outs:
        tr = Trace(o)
        if not any(e.kind == 'setattr' and e.name == 'quit' and setv(e) == TRUE for e in tr.ev) or not [
                e for i, e in tr.calls('set') if is_attr(e.recv or NONE, 'event')]:
            sviol(ctx, 'stop', st, eng, o, 'does not tell the task to stop', 'stop')
        else:
            ctx.ok('stop', st.qual)
    cq = M + '.CommitTask'
    slf = ('self', cq)
    fi = ctx.repo.func(cq + '.run')
    eng, outs = ctx.run(fi, TaskPolicy(), TraceMonitor())
    for o in outs:
        tr = Trace(o)
        bad = None
        told = [i for i, x in enumerate(tr.ev) if x.kind == 'if' and x.recv[0] == 'true' and is_res(x.recv[1], 'is_set')]
        if o.kind == 'return' and not any(tr.ev[i].res for i in told):
            bad = 'ends without having been told to stop'
        for i, e in tr.calls('wait'):
            if not is_attr(e.recv or NONE, 'stop_event'):
                bad = 'waits for something else than to be told to stop'
        for i, e in tr.calls('sleep', 'sleep_forever'):
            bad = 'cannot be told to stop while it sleeps'
        for i, e in tr.calls('upload_if_dirty'):
            aw = [j for j, x in enumerate(tr.ev[:i]) if x.kind == 'await' and x.name == 'upload_if_dirty']
            if aw and not any(j > aw[-1] for j in told if j < i):
                bad = 'goes on to upload after it was told to stop'
        if bad:
            sviol(ctx, 'stop', fi, eng, o, bad, bad)
        else:
            ctx.ok('stop', fi.qual)
    st = ctx.repo.func(cq + '.stop')
    eng, outs = ctx.run(st, OwnPolicy(), TraceMonitor())
    for o in outs:
        if not [e for i, e in Trace(o).calls('set') if is_attr(e.recv or NONE, 'stop_event')]:
            sviol(ctx, 'stop', st, eng, o, 'does not tell the task to stop', 'stop')
        else:
            ctx.ok('stop', st.qual)
    ctx.floor('stop', 6)


def sync_cm(x):
    return x.kind in ('enter', 'exit') and x.name in ('move_on_after', 'CancelScope', 'suppress', 'fail_after')


def quit_of(a, slf):
    return a[0] == 'true' and is_attr(a[1], 'quit') and a[1][1] == slf


@check('T04', explanation=(
    'mount is executed abstractly along every path, once without and once with a failure of each call after the block cache was '
    'created. Shutdown steps run in reverse order of their registration, so the registrations have to be: nursery of the workers, '
    'block cache, attribute cache, end of requests, one stop per periodic task; each is registered before anything after the start of '
    'the resource can fail. The database is closed after the shutdown steps and the metadata uploaded after that, on normal paths only; '
    'a terminating signal or a failed thread ends with an exception; nothing is started before the in-use mark was written and '
    'uploaded. The steps themselves flush before they close, and the periodic tasks look at the stop flag after each reset and await '
    'before they wait again.'))
def t04(ctx):
    ctx.rule('order', 'shutdown steps are registered in order and at once; nothing starts before the in-use mark')
    ctx.rule('steps', 'the shutdown steps flush before they close')
    ctx.rule('stop', 'periodic tasks cannot miss that they have to stop')
    mount_order(ctx)
    cache_destroy(ctx)
    tasks(ctx)


# -------------------------------------------------------------------------------------------
# T01

OPENERS = ('open_raw_backend', 'open_backend', 'get_backend')
BACKEND_CHANGES = ('store', 'write_fh', 'delete', 'delete_multi', 'upload_metadata', 'upload_params', 'expire_objects', 'write_params',
                   'download_metadata', 'get_metadata', 'create_tables', 'init_tables', 'Connection', 'execute', 'rowid', 'checkpoint')
KEYS = ('s3ql_passphrase', 's3ql_passphrase_bak1', 's3ql_passphrase_bak2', 's3ql_passphrase_bak3')


class ToolMonitor(TraceMonitor):
    def step(self, auto, ev, st, eng):
        if ev.kind == 'ret' or ev.kind == 'call' and ev.name in ('print', 'info', 'warning', 'debug', 'time', 'flush', 'dedent', 'pick', 'error'):
            return auto
        return TraceMonitor.step(self, auto, ev, st, eng)


class ToolPolicy(OwnPolicy):
    max_states = 4000
    max_returns = 4000
    stable = frozenset(('args', 'ctx', 'obj'))

    def __init__(self, also=(), faults=None):
        OwnPolicy.__init__(self, faults)
        self.also = also

    def raises(self, ev, eng):
        if ev.kind == 'getitem' and ev.recv is not None and comes_from(ev.recv, ('get_available_seq_nos',)):
            return ('builtins.IndexError',)
        return OwnPolicy.raises(self, ev, eng)

    def inline(self, fi, eng):
        return fi.qual in self.also or OwnPolicy.inline(self, fi, eng)


def tool_change(e):
    if e.kind != 'call':
        return False
    if e.name in BACKEND_CHANGES:
        return True
    if e.name in ('write', 'run', 'call', 'writelines') and not e.qual.startswith('subprocess'):
        return False
    return changes_files(e)


def comes_from(t, names):
    '''The value depends on the result of one of these calls.'''
    return any(is_res(x, *names) for x in subterms(t))


def first_change(tr):
    for i, e in enumerate(tr.ev):
        if tool_change(e):
            return i
    return None


def asked_yes(tr, upto):
    '''The user said yes before event upto.'''
    for a, v in tr.facts(upto):
        if v and a[0] in ('eq', 'in') and comes_from(a, ('readline', 'input', 'prompt')):
            words = [cval(x) for x in subterms(a) if is_const(x) and isinstance(cval(x), str)]
            if 'yes' in [w.strip().lower() for w in words] and all(w.strip().lower() in ('yes', 'y', '') for w in words if w.strip().isalpha()):
                return True
        if v and a[0] == 'true' and is_res(a[1], 'confirm', 'ask'):
            return True
    return bool([1 for i, e in enumerate(tr.ev[:upto]) if e.kind == 'call' and e.name == 'confirm' and dict(e.kw).get('abort') == TRUE])


def refuses(ctx):
    fi = ctx.repo.func('s3ql.mkfs.mkfs')
    eng, outs = ctx.run(fi, ToolPolicy(), ToolMonitor())
    for o in outs:
        tr = Trace(o)
        n = first_change(tr)
        if n is None:
            continue
        seen = set()
        for a, v in tr.facts(n):
            if a[0] == 'true' and not v and is_res(a[1], 'contains'):
                x = res_args(a[1])
                if len(x) == 2 and is_const(x[1]) and comes_from(x[0], OPENERS):
                    seen.add(cval(x[1]))
        for k in ('s3ql_params', 's3ql_metadata'):
            if k not in seen:
                sviol(ctx, 'exists', fi, eng, o, 'changes something without having made sure that there is no %s object yet' % k, k)
            else:
                ctx.ok('exists', fi.qual)
    ctx.floor('exists', 4)


def commands_of(ctx, mod):
    '''Functions registered as commands of a program.'''
    r = []
    for f in src_functions(ctx):
        if f.mod.name != mod:
            continue
        for d in f.node.decorator_list:
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == 'command':
                r.append(f)
    return r


def confirms(ctx):
    for q in ('s3ql.adm.clear', 's3ql.adm.upgrade', 's3ql.adm.restore_metadata'):
        fi = ctx.repo.func(q)
        eng, outs = ctx.run(fi, ToolPolicy(), ToolMonitor())
        n = 0
        for o in outs:
            tr = Trace(o)
            c = first_change(tr)
            if c is None:
                continue
            n += 1
            if q.endswith('restore_metadata'):
                good = bool([1 for i, e in enumerate(tr.ev[:c]) if e.kind == 'call' and e.name == 'read_remote_params' and chosen(tr, i)])
                msg = 'changes something before the user has chosen a backup'
            else:
                good = asked_yes(tr, c)
                msg = 'changes or deletes something although the user did not say yes'
            if not good:
                sviol(ctx, 'ask', fi, eng, o, msg, msg)
            else:
                ctx.ok('ask', fi.qual)
        if not n:
            ctx.violate('ask', fi.qual, '%s does not change anything' % fi.short, fi.loc())
    ctx.floor('ask', 3)


def chosen(tr, i):
    s = kwarg_of(tr, i, 1, 'seq_no')
    return s is not None and s[0] == 'item' and comes_from(s[1], ('get_available_seq_nos',)) and comes_from(s[2], ('input', 'readline', 'prompt'))


def not_mounted(ctx):
    fs = commands_of(ctx, 's3ql.adm') + [ctx.repo.func('s3ql.fsck.fsck'), ctx.repo.func('s3ql.mount.mount')]
    if len(fs) < 8:
        raise AnalysisError('only %d commands found' % len(fs))
    helper = tuple(f.qual for f in src_functions(ctx) if f.mod.name == 's3ql.adm' and any(
        isinstance(x, ast.Call) and called(ctx, f, x) == 's3ql.common.is_mounted' for x in walk_own(f.node)))
    for fi in fs:
        url = ('param', 'storage_url', fi.qual)
        body = ctx.run(fi, ToolPolicy(tuple(h for h in helper if h != fi.qual)), PrefixMonitor())
        seen = set()
        for o in body[1]:
            tr = Trace(o)
            for i, e in enumerate(tr.ev):
                if e.kind != 'call' or not (e.name in OPENERS or tool_change(e) or e.name == 'read_cached_params'):
                    continue
                f = [v for a, v in tr.facts(i) if a[0] == 'true' and is_res(a[1], 'is_mounted') and url in res_args(a[1])]
                if not f or f[-1]:
                    sviol(ctx, 'mounted', fi, body[0], o, 'works on a file system without having made sure that it is not mounted', 'mounted')
                else:
                    ctx.ok('mounted', fi.qual)
                seen.add(i)
                break
        if not seen:
            ctx.violate('mounted', fi.qual, '%s: opening the backend was not recognised' % fi.short, fi.loc())
    ctx.floor('mounted', 8)


class PrefixMonitor(ToolMonitor):
    '''Keeps a trace up to the first interesting call only.'''
    def step(self, auto, ev, st, eng):
        if auto and any(x.kind == 'call' and x.name in OPENERS for x in auto):
            return auto
        return ToolMonitor.step(self, auto, ev, st, eng)


def detects(ctx):
    '''is_mounted is true if the first field of a line is the storage URL.'''
    fi = ctx.repo.func('s3ql.common.is_mounted')
    url = ('param', fi.node.args.args[0].arg, fi.qual)
    eng, outs = ctx.run(fi, ToolPolicy(), TraceMonitor())
    n = 0
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        ops = [i for i, e in tr.calls('open') if e.args and is_const(e.args[0]) and cval(e.args[0]) == '/proc/mounts']
        if not ops:
            continue
        n += 1
        v = o.val
        yes = [a for a, x in tr.facts() if x and url_line(a, url)]
        its = [i for i, e in enumerate(tr.ev) if e.kind == 'iter']
        bad = None
        if v == TRUE:
            bad = None if yes else 'reports a file system as mounted for no reason'
        elif v == FALSE:
            if yes:
                bad = 'does not report a file system that is mounted'
            elif not [1 for e in tr.ev if e.kind == 'loopexit']:
                bad = 'does not look at all mounted file systems'
        elif v[0] == 'pure' and v[1] in ('any', 'bool') or v[0] in ('cmp', 'true'):
            if not url_line(v, url):
                bad = 'does not compare the mounted file systems with the storage URL'
        elif its:
            bad = None
        if bad:
            sviol(ctx, 'detect', fi, eng, o, bad, bad)
        else:
            ctx.ok('detect', fi.qual)
    if not n:
        ctx.violate('detect', fi.qual, 'is_mounted does not look at /proc/mounts', fi.loc())


def url_line(a, url):
    return url in set(subterms(a)) and any(x[0] in ('elem', 'unk', 'res') for x in subterms(a))


def keys_stored(ctx):
    for q in ('s3ql.mkfs.mkfs', 's3ql.adm.passphrase', 's3ql.adm.recover_key'):
        fi = ctx.repo.func(q)
        eng, outs = ctx.run(fi, ToolPolicy(), ToolMonitor())
        n = 0
        for o in outs:
            tr = Trace(o)
            st = [(i, e) for i, e in tr.calls('store')]
            if not st:
                if o.kind == 'return' and not (q.endswith('mkfs') and truth_any(tr, ('param', 'plain', fi.qual)) is True):
                    sviol(ctx, 'keys', fi, eng, o, 'ends normally without having stored the data key', 'none')
                continue
            n += 1
            bad = key_paths(tr, st, q, o)
            if bad:
                sviol(ctx, 'keys', fi, eng, o, bad, bad)
            else:
                ctx.ok('keys', fi.qual)
        if not n:
            ctx.violate('keys', fi.qual, '%s: storing the key was not recognised' % fi.short, fi.loc())
    ctx.floor('keys', 3)


def truth_any(tr, t):
    r = [v for a, v in tr.facts() if a == ('true', t)]
    return r[-1] if r else None


ENTERED = ('getpass', 'readline', 'input', 'prompt')


def entered(t):
    '''The passphrase that was entered.'''
    return comes_from(t, ENTERED) and not comes_from(t, ('b64decode', 'urandom'))


def key_paths(tr, st, q, o):
    names = [cval(kwarg_of(tr, i, 0, 'key')) if is_const(kwarg_of(tr, i, 0, 'key') or NONE) else None for i, e in st]
    vals = {kwarg_of(tr, i, 1, 'val') or kwarg_of(tr, i, 1, 'value') for i, e in st}
    if o.kind == 'return' and set(names) != set(KEYS):
        return 'does not store exactly the four copies of the data key'
    if len(vals) != 1:
        return 'stores different data keys in the copies'
    if any(not awaited(tr, i) for i, e in st):
        return 'does not wait until a copy is stored'
    v = next(iter(vals))
    bk = {e.recv for i, e in st}
    if len(bk) != 1:
        return 'stores the copies in different backends'
    b = next(iter(bk))
    sets = [(i, e) for i, e in enumerate(tr.ev) if e.kind == 'setattr' and e.name == 'passphrase']
    before = [e for i, e in sets if i < st[0][0] and e.recv == b]
    if any(st[0][0] < i < st[-1][0] for i, e in sets):
        return 'changes the passphrase between the copies'
    if is_res(b, 'create') or b[0] == 'new':
        w = [x for x in tr.ev[:st[0][0]] if x.kind == 'call' and x.res == b]
        a = kwarg_of(tr, tr.ev.index(w[0]), 0, 'passphrase') if w else None
        if before:
            a = setv(before[-1])
    elif before:
        a = setv(before[-1])
    else:
        return 'stores the data key encrypted with itself'
    if a is None or not entered(a):
        return 'does not encrypt the copies with the passphrase that was entered'
    if q.endswith('passphrase'):
        if not (is_attr(v, 'passphrase') and v[1] == b):
            return 'does not store the old data key again'
    elif q.endswith('recover_key'):
        if not (comes_from(v, ('b64decode',)) and comes_from(v, ('readline', 'input'))):
            return 'does not store the master key that was entered'
        if not [1 for x, y in tr.facts(st[0][0]) if y and x[0] == 'eq' and const(32) in x and ('pure', 'len', (v,)) in x]:
            return 'stores a master key of the wrong length'
    else:
        if not comes_from(v, ('read', 'urandom', 'token_bytes', 'get_random_bytes')) or comes_from(v, ENTERED):
            return 'does not use random data as data key'
        for i, e in tr.calls('create'):
            if i > st[-1][0] and kwarg_of(tr, i, 0, 'passphrase') != v:
                return 'does not encrypt the file system with the data key that was stored'
    tty = [y for x, y in tr.facts(st[0][0]) if x[0] == 'true' and is_res(x[1], 'isatty')]
    gp = [e for i, e in tr.calls('getpass') if i < st[0][0]]
    if gp:
        same = [y for x, y in tr.facts(st[0][0]) if x[0] == 'eq' and sum(1 for z in x[1:] if comes_from(z, ('getpass',))) == 2]
        if len(gp) > 1 and (not same or not same[-1]):
            return 'goes on although the repeated passphrase differs'
    return None


@check('T01', explanation=(
    'mkfs, every command of s3qladm, fsck and mount are executed abstractly along every path. Every path on which something is changed '
    '(an object or file written, deleted or renamed, the database changed) has to have found before that neither s3ql_params nor '
    's3ql_metadata exists (mkfs), that the user entered yes (clear, upgrade) or has chosen a backup (restore-metadata); the backend is '
    'opened only after is_mounted was false for the storage URL, and is_mounted compares the mounted file systems with it. '
    'The values stored under the four keys are one term: the key read before (passphrase), entered with the right length (recover-key) '
    'or random (mkfs); the backend that stores them encrypts with the entered passphrase; a repeated passphrase was equal.'))
def t01(ctx):
    ctx.rule('exists', 'mkfs changes nothing before it made sure that there is no file system')
    ctx.rule('ask', 'clear, upgrade and restore change nothing before the user agreed')
    ctx.rule('mounted', 'nothing works on a file system that is mounted')
    ctx.rule('detect', 'mounted file systems are recognised')
    ctx.rule('keys', 'the data key is stored in four copies under the entered passphrase')
    refuses(ctx)
    confirms(ctx)
    not_mounted(ctx)
    detects(ctx)
    keys_stored(ctx)

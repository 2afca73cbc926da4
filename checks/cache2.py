'''B: rules about whole passes over the block cache (remove, evict, drop, flush, start_flush, upload_if_dirty).'''

from __future__ import annotations

import re

from sa.interp import FALSE, TRUE, NONE, const, mentions, show, subterms
from sa.lib import is_attr, lin
from sa.sqlp import parse

from .storage import Trace, TraceMonitor, sviol
from .storage3 import OwnPolicy

BC = 's3ql.block_cache.BlockCache'
SELF = ('self', BC)
CACHE = ('attr', SELF, 'cache')
LOCK = ('attr', SELF, 'block_lock')


class PassPolicy(OwnPolicy):
    stable = frozenset()

    def __init__(self, faults=None):
        OwnPolicy.__init__(self, faults)

    def result(self, ev, st, eng):
        if ev.name == 'acquire_nowait':
            return [(st.copy(), TRUE), (st.copy(), FALSE)]
        return None

    def raises(self, ev, eng):
        if ev.name in ('get_int_val', 'get_row', 'get_int64'):
            return ('s3ql.database.NoSuchRowError',)
        return OwnPolicy.raises(self, ev, eng)


class WhilePolicy(PassPolicy):
    while_iters = 3
    loop_iters = 2


def lock_spans(tr):
    '''(index of the acquisition, index of the release, key) of block locks.'''
    open_, out = {}, []
    for i, e in enumerate(tr.ev):
        if e.kind == 'ret' and e.recv == LOCK and e.args:
            if e.name == 'acquire' or e.name == 'acquire_nowait' and e.res != FALSE:
                open_[e.args[0]] = i
        if e.kind == 'call' and e.name == 'release' and e.recv == LOCK and e.args and e.args[0] in open_:
            out.append((open_.pop(e.args[0]), i, e.args[0]))
    return out + [(i, len(tr.ev), k) for k, i in open_.items()]


class AllTrace(TraceMonitor):
    pass


def run(ctx, name, pol=None):
    fi = ctx.repo.func('%s.%s' % (BC, name))
    eng, outs = ctx.run(fi, pol or PassPolicy(), AllTrace())
    return fi, eng, outs


def remove_complete(ctx, rule):
    '''remove(): every block number taken from the list is dealt with under its lock.'''
    fi, eng, outs = run(ctx, 'remove')
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        bad = None
        spans = lock_spans(tr)
        for i, e in enumerate(tr.ev):
            if e.kind == 'call' and e.name in ('remove', 'discard') and len(e.args) == 1 and e.recv not in (None, CACHE, SELF) and \
                    e.args[0][0] == 'elem':
                if not any(a < i < b and mentions(k, lambda t: t == e.args[0]) for a, b, k in spans):
                    bad = 'crosses a block off the list without having its lock'
        for a, b, key in spans:
            seg = tr.ev[a:b]
            gone = any(e.kind == 'call' and e.name in ('remove', 'pop') and e.recv == CACHE and e.args[:1] == (key,) for e in seg)
            known = any(e.kind == 'if' and e.recv[0] == 'in' and e.recv[1] == key and e.recv[2] == CACHE and e.res is False or
                        e.kind == 'if' and e.recv[0] == 'isnone' and e.res is True and cache_get(e.recv[1], key) or
                        e.kind == 'handler' and e.name == 'KeyError' for e in seg)
            if not gone and not known:
                bad = 'leaves a removed block in the cache'
            row = any(e.kind == 'handler' and e.name == 'NoSuchRowError' for e in seg)
            for e in seg:
                if e.kind == 'call' and e.name in ('execute',) and e.args and isinstance(e.args[0], tuple) and e.args[0][0] == 'const':
                    s = parse(e.args[0][1])
                    row = row or s.kind == 'delete' and s.table == 'inode_blocks'
            if not row:
                bad = 'leaves a removed block attached to the file'
        if not spans and any(e.kind == 'iter' and e.res[0] == 'elem' and not listing(e.recv) for e in tr.ev) and \
                not any(e.kind == 'ret' and e.name == 'acquire_nowait' for e in tr.ev):
            bad = 'passes over a block'
        if bad:
            sviol(ctx, rule, fi, eng, o, bad, bad)
        else:
            ctx.ok(rule, fi.qual)


def listing(t):
    '''Something that blocks are looked up in, rather than the set of blocks to deal with.'''
    return isinstance(t, tuple) and (t in (CACHE, ('attr', LOCK, 'locked_keys')) or t[0] == 'tuple' and all(listing(x) for x in t[1:]) or
                                     t[0] == 'res' and t[1].rpartition('.')[2] in ('query', 'query_typed', 'get_list'))


class BlocksPolicy(PassPolicy):
    """The function that lists existing blocks is analysed on its own."""

    opaque = PassPolicy.opaque | {'_existing_blocks'}


def existing_blocks(ctx, rule):
    """Where not all block numbers are visited, those visited include all blocks that exist or are being created."""
    fi, eng, outs = run(ctx, 'remove', BlocksPolicy())
    ino, lo, hi = [('param', a.arg, fi.qual) for a in fi.node.args.args[1:4]]
    helpers = set()
    for o in outs:
        tr = Trace(o)
        for e in tr.ev:
            if e.kind == 'call' and e.recv == SELF and e.name == '_existing_blocks':
                helpers.add(ctx.repo.func(BC + '._existing_blocks'))
                ctx.ok(rule, '%s: arguments' % fi.qual)
                end = e.args[2] if len(e.args) > 2 else None
                if e.args[:2] != (ino, lo) or end not in (hi, ('pure', 'Add', (const(1), lo)), ('pure', 'Add', (lo, const(1)))):
                    sviol(ctx, rule, fi, eng, o, 'does not look for all blocks of the range', 'range')
            for t in (e.recv, *(e.args or ())):
                for u in subterms(t) if isinstance(t, tuple) else ():
                    if u[:2] == ('pure', 'range') and len(u[2]) == 2 and mentions(u[2][0], lambda t: t == lo):
                        ctx.ok(rule, '%s: range' % fi.qual)
                        if u[2][0] != lo or mentions(u[2][1], lambda t: t[:2] == ('pure', 'Sub')):
                            sviol(ctx, rule, fi, eng, o, 'passes over blocks at the ends of the range', 'range ends')
    for h in helpers:
        ino, lo, hi = [('param', a.arg, h.qual) for a in h.node.args.args[1:4]]
        _, eng, outs = run(ctx, h.name)
        for o in outs:
            if o.kind != 'return':
                continue
            tr = Trace(o)
            ctx.ok(rule, h.qual)
            bad = None
            rows = False
            for e in tr.ev:
                if e.kind == 'ret' and e.name in ('query', 'query_typed', 'get_list'):
                    txt = [a[1] for a in e.args if a[0] == 'const' and isinstance(a[1], str)]
                    s = ' '.join(txt[0].lower().split()) if txt else ''
                    if s == 'select blockno from inode_blocks where inode=? and blockno >= ? and blockno < ?':
                        rows = e.args[-1] == ('tuple', ino, lo, hi) and o.val is not None and (mentions(o.val, lambda t: t == e.res) or any(
                            c.kind == 'call' and c.name in ('add', 'update') and c.recv == o.val and mentions(c.args[0], lambda t: t == e.res)
                            for c in tr.ev))
                    elif 'inode_blocks' in s:
                        rows = rows or set(re.findall(r'[<>=]+', s)) <= {'=', '>=', '<'} and e.args[-1] == ('tuple', ino, lo, hi)
            if not rows:
                bad = 'leaves out blocks that are recorded in the database'
            for what, where in ((CACHE, 'that are only in the cache'), (('attr', LOCK, 'locked_keys'), 'that are just being created')):
                if not any(e.kind == 'loopexit' and mentions(e.res, lambda t: t == what) for e in tr.ev) and not mentions(
                        o.val, lambda t: t == what):
                    bad = 'leaves out blocks %s' % where
            its = [i for i, e in enumerate(tr.ev) if e.kind == 'iter' and e.recv in (CACHE, ('attr', LOCK, 'locked_keys'))]
            for n, i in enumerate(its):
                el = tr.ev[i].res
                seg = tr.ev[i:next((j for j in range(i + 1, len(tr.ev)) if tr.ev[j].kind in ('iter', 'loopexit')), len(tr.ev))]
                if any(e.kind == 'call' and e.name == 'add' and mentions(e.args[0], lambda t: t == el) for e in seg):
                    continue
                no = ('item', el, const(1))
                out = any(e.kind == 'if' and (
                    e.recv[0] == 'eq' and ino in e.recv[1:] and e.res is False or
                    e.recv == ('lt', no, lo) and e.res is True or e.recv == ('lt', no, hi) and e.res is False) for e in seg)
                if not out:
                    bad = 'leaves out a block of the range'
            if bad:
                sviol(ctx, rule, h, eng, o, bad, bad)


def sparse(ctx, rule, fns):
    """No request goes through all blocks a file of that size could have unless it knows that there are few."""
    for fi in fns:
        eng, outs = ctx.run(fi, BlocksPolicy(), AllTrace())
        for o in outs:
            tr = Trace(o)
            for e in tr.ev:
                if e.kind != 'iter' or e.recv is None:
                    continue
                for t in subterms(e.recv):
                    if t[0] == 'pure' and t[1] == 'range' and t[2] and not all(x[0] == 'const' for x in t[2]):
                        end = t[2][-1] if len(t[2]) < 3 else t[2][1]
                        start = t[2][0] if len(t[2]) > 1 else const(0)
                        big = mentions(end, lambda u: is_attr(u, 'size') or is_attr(u, 'st_size')) or fi.short == 'BlockCache.remove'
                        d = lin(('pure', 'Sub', (end, start)))
                        if not big or len(d) == 1 and None in d:
                            continue
                        ctx.ok(rule, '%s: range' % fi.short)
                        few = any(x[0] == 'lt' and (x[2][0] == 'const' and v is True or x[1][0] == 'const' and v is False) and
                                  mentions(x, lambda u: u == end or u == start) for x, v in o.st.facts.items())
                        if not few:
                            sviol(ctx, rule, fi, eng, o, 'goes through every block that the file could have (a sparse file can have billions)', 'sparse')


def cache_get(t, key):
    return isinstance(t, tuple) and t[0] == 'res' and t[1].endswith('get') and key in t[-1] and CACHE in t[-1]


def current_entry(ctx, rule):
    '''upload_if_dirty(): what is hashed and recorded is the block that the cache holds.'''
    fi, eng, outs = run(ctx, 'upload_if_dirty')
    el = ('param', fi.node.args.args[1].arg, fi.qual)
    n = 0
    for o in outs:
        tr = Trace(o)
        hashed = [i for i, e in enumerate(tr.ev) if e.kind == 'call' and any(a == el for a in e.args) and e.recv != SELF and
                  e.name not in ('debug', 'release', 'acquire')]
        if not hashed:
            continue
        h = hashed[0]
        n += 1
        last = max([i for i, e in enumerate(tr.ev[:h]) if e.kind == 'await' and not any(x == el for x in e.args)], default=-1)
        ok = False
        for i, e in enumerate(tr.ev[:h]):
            if i > last and e.kind == 'if' and e.res is True and e.recv[0] in ('is', 'eq') and el in e.recv[1:]:
                other = [x for x in e.recv[1:] if x != el]
                if other and mentions(other[0], lambda t: t == CACHE):
                    ok = True
        if not ok:
            sviol(ctx, rule, fi, eng, o, 'a block is uploaded without knowing that it is still the cached one', 'current')
        else:
            ctx.ok(rule, fi.qual)
    if not n:
        ctx.violate(rule, fi.qual, 'no path uploads a block', fi.loc())


def bounded(e, what):
    '''Decision e says that the size / number of entries does not exceed its limit.'''
    if e.kind != 'if':
        return None
    a = e.recv
    if a[0] == 'true' and a[1][0] == 'res' and a[1][1].endswith('is_full'):
        return not e.res
    if a[0] != 'lt':
        return None
    d = lin(('pure', 'Sub', (a[1], a[2])))
    cur = {('attr', CACHE, 'size'): 'size', ('pure', 'len', (CACHE,)): 'entries'}
    lim = {('attr', CACHE, 'max_size'): 'size', ('attr', CACHE, 'max_entries'): 'entries'}
    r = None
    if len(d) == 2:
        for t, c in d.items():
            for u, k in d.items():
                if t in cur and u in lim and cur[t] == lim[u] == what:
                    if (c, k) == (-1, 1):      # limit < current
                        r = not e.res
                    elif (c, k) == (1, -1):    # current < limit
                        r = e.res or None
    elif len(d) == 3 and None in d:
        k0 = d[None]
        for t, c in d.items():
            for u, k in d.items():
                if t in cur and u in lim and cur[t] == lim[u] == what:
                    # c*cur + k*lim + k0 < 0
                    if (c, k) == (1, -1) and k0 == -1:   # current < limit + 1
                        r = e.res
    return r


def limit_loops(ctx, rule):
    fi, eng, outs = run(ctx, 'evict')
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        last = max([i for i, e in enumerate(tr.ev) if e.kind == 'await'], default=-1)
        res = {}
        for what in ('size', 'entries'):
            v = [bounded(e, what) for e in tr.ev[last + 1:]]
            res[what] = [x for x in v if x is not None][-1:] == [True]
        bad = [w for w in res if not res[w]]
        if bad:
            sviol(ctx, rule, fi, eng, o, 'evict() ends although the %s may exceed the limit' % ' and '.join(bad), 'evict')
        else:
            ctx.ok(rule, fi.qual)
    fi, eng, outs = run(ctx, 'drop')
    for o in outs:
        tr = Trace(o)
        bad = None
        ev = [i for i, e in tr.calls('evict') if e.recv == SELF]
        if not ev:
            if not any(e.kind == 'call' and e.recv == SELF for e in tr.ev):
                bad = 'drop() does not drop anything'
            ev = [len(tr.ev)]
        lims = {}
        for i, e in enumerate(tr.ev):
            if e.kind == 'setattr' and e.recv == CACHE and e.name in ('max_entries', 'max_size'):
                lims.setdefault(e.name, []).append((i, e.res))
        for name, sets in lims.items():
            if o.kind == 'return' and sets[-1][1] != ('attr', CACHE, name):
                bad = 'drop() leaves another limit of the cache (%s)' % name
        if o.kind == 'return' and ev and ev[0] < len(tr.ev):
            if not any(x[-1:] and [v for i, v in x if i < ev[0]][-1:] == [const(0)] for x in lims.values()):
                bad = bad or 'drop() does not empty the cache'
        if bad:
            sviol(ctx, rule, fi, eng, o, bad, bad)
        else:
            ctx.ok(rule, fi.qual)


def cache_iter(e):
    return e.kind in ('iter', 'loopexit') and mentions(e.recv if e.kind == 'iter' else e.res, lambda t: t == CACHE)


def flush_complete(ctx, rule):
    '''flush(): ends with a complete pass over the cache during which nothing was uploaded.'''
    fi, eng, outs = run(ctx, 'flush', WhilePolicy())
    n = 0
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        if any(e.kind == 'call' and e.name == 'drop' and e.recv == SELF for e in tr.ev):
            n += 1
            continue
        ends = [i for i, e in enumerate(tr.ev) if e.kind == 'loopexit' and cache_iter(e)]
        bad = None
        if not ends:
            bad = 'ends without a complete pass over the cache'
        else:
            end = ends[-1]
            start = max([i + 1 for i, e in enumerate(tr.ev[:end]) if e.kind == 'ret' and e.res == tr.ev[end].res] +
                        [i + 1 for i in ends[:-1]] + [0])
            elems = [e.res for e in tr.ev[start:end] if e.kind == 'iter' and cache_iter(e)]
            calls = [(i, e) for i, e in tr.calls('upload_if_dirty') if start <= i < end]
            n += len(calls)
            if elems and len(calls) < len(elems):
                bad = 'passes over a block'
            for i, e in calls:
                r = [x.res for x in tr.ev[i:] if x.kind == 'ret' and x.name == 'upload_if_dirty'][:1]
                v = [x.res for x in tr.ev[i:] if x.kind == 'if' and x.recv == ('true', r[0])] if r else []
                if v[:1] != [False]:
                    bad = 'ends although a block was still being uploaded'
            if any(cache_iter(e) and e.kind == 'iter' for e in tr.ev[end + 1:]):
                bad = 'ends without a complete pass over the cache'
        if bad:
            sviol(ctx, rule, fi, eng, o, 'flush() ' + bad, bad)
        else:
            ctx.ok(rule, fi.qual)
    if not n:
        ctx.violate(rule, fi.qual, 'flush() uploads nothing', fi.loc())


def start_flush(ctx, rule):
    '''start_flush(): every block of the file is registered in the database.'''
    fi, eng, outs = run(ctx, 'start_flush', WhilePolicy())
    want = ('param', fi.node.args.args[1].arg, fi.qual)
    n = 0
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        bad = None
        if not any(cache_iter(e) for e in tr.ev):
            bad = 'ends without looking at the cache'
        starts = [i for i, e in enumerate(tr.ev) if e.kind == 'iter' and cache_iter(e)]
        for k, i in enumerate(starts):
            el = tr.ev[i].res
            end = starts[k + 1] if k + 1 < len(starts) else len(tr.ev)
            seg = tr.ev[i:end]
            other = any(e.kind == 'if' and e.recv[0] == 'eq' and set(e.recv[1:]) == {('attr', el, 'inode'), want} and e.res is False
                        for e in seg)
            if other:
                continue
            ups = [j for j, e in enumerate(seg) if e.kind == 'call' and e.name == 'upload_if_dirty' and e.args[:1] == (el,)]
            if not ups:
                bad = 'passes over a block of the file'
                break
            n += 1
            d = [(j, e.res) for j, e in enumerate(seg[:ups[-1]]) if e.kind == 'if' and is_attr(e.recv[1], 'in_transit') and
                 e.recv[1][1] == el]
            if not d or d[-1][1] is not False or any(e.kind == 'await' for e in seg[d[-1][0]:ups[-1]]):
                bad = 'does not wait for an upload that may not have been registered'
        if bad:
            sviol(ctx, rule, fi, eng, o, 'start_flush() ' + bad, bad)
        else:
            ctx.ok(rule, fi.qual)
    if not n:
        ctx.violate(rule, fi.qual, 'start_flush() uploads nothing', fi.loc())

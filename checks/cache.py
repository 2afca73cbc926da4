'''B: the block cache (src/s3ql/block_cache.py, multi_lock.py).'''

from __future__ import annotations

import ast
import re

from sa.interp import (Event, Monitor, Policy, const, cval, is_const, mentions, show, subterms, short_event, NONE, TRUE, FALSE)
from sa.lib import (StdPolicy, len_bounds, lin_diff, attr_val, cls_name, fmt_is, is_attr, methods_of, recv_attr, recv_is, truth_attr)
from sa.baseline import known_functions
from sa.repo import AnalysisError, FuncInfo, walk_own
from sa.sqlp import sql_of

from . import check

BC = 'block_cache.BlockCache'


def key_of_entry(el):
    '''Lock key terms that denote the key of cache entry term *el*.'''
    keys = [('tuple', ('attr', el, 'inode'), ('attr', el, 'blockno'))]
    if el[0] == 'item':
        keys.append(el[2])
    if el[0] == 'new' and len(el[3]) >= 2:
        keys.append(('tuple', el[3][0], el[3][1]))
    if el[0] == 'res':
        keys.append(None)
    return keys


def is_lock(eng, ev):
    return recv_is(eng, ev, 'MultiLock') or recv_attr(ev, 'block_lock')


def is_entry(eng, t):
    return cls_name(eng, t) == 'CacheEntry' or (
        t is not None and t[0] == 'item' and is_attr(t[1], 'cache')) or (
        t is not None and t[0] == 'elem' and t[1][0] == 'res' and t[1][1].endswith(('mutable_values', 'values')))


class LockPolicy(StdPolicy):
    opaque = frozenset({'MultiLock.acquire', 'MultiLock.release', 'MultiLock.acquire_nowait', 'CacheDict.remove',
                        'CacheEntry.read', 'CacheEntry.write', 'CacheEntry.seek', 'CacheEntry.truncate',
                        'CacheEntry.flush', 'CacheEntry.close', 'CacheEntry.unlink',
                        'BlockCache.get', 'BlockCache.upload_if_dirty', 'BlockCache._deref_obj', 'BlockCache.evict',
                        'BlockCache.remove', 'BlockCache._get_entry', 'BlockCache.wait', 'BlockCache._do_upload',
                        'BlockCache.flush', 'BlockCache.drop'})
    inline_modules = {'s3ql.block_cache', 's3ql.multi_lock'}

    def raises(self, ev, eng):
        if ev.name in ('release', 'notify_all', 'aclose') or (ev.name == 'acquire' and recv_attr(ev, 'cond')):
            return ()
        return StdPolicy.raises(self, ev, eng)

    def result(self, ev, st, eng):
        if ev.name == 'acquire_nowait' and (is_lock(eng, ev)):
            return [(st.copy(), TRUE), (st.copy(), FALSE)]
        return None


class LockMonitor(Monitor):
    '''auto: tuple of (key, state) for keys locked by the analysed task.'''

    def __init__(self, ctx, initial=()):
        self.ctx = ctx
        self.initial = tuple(initial)

    def init(self):
        return self.initial

    def bad(self, rule, ev, eng, st, msg):
        self.ctx.violate(rule, '%s: %s' % (eng.entry.qual, msg), '%s (entered from %s)' % (msg, eng.entry.short),
                         ev.loc, eng.describe_trace(st) + ['%s %s' % (ev.loc, short_event(ev))])

    def step(self, auto, ev, st, eng):
        d = dict(auto)
        if ev.kind == 'ret' and ev.name in ('acquire', 'acquire_nowait') and is_lock(eng, ev):
            key = ev.arg(0, 'key')
            if ev.name == 'acquire_nowait' and ev.res == FALSE:
                return auto
            self.ctx.ok('lock-balance', '%s acquire at %s' % (eng.entry.short, ev.fi.short))
            if d.get(key) == 'held':
                self.bad('lock-balance', ev, eng, st, 'lock %s is acquired again while already held' % show(key))
            d[key] = 'held'
        elif ev.kind == 'call' and ev.name == 'release' and is_lock(eng, ev):
            key = ev.arg(0, 'key')
            noerr = ev.arg(1, 'noerror', FALSE)
            self.ctx.ok('lock-balance', '%s release at %s' % (eng.entry.short, ev.fi.short))
            if d.get(key) != 'held':
                if noerr == FALSE or d.get(key) == 'handed':
                    self.bad('lock-balance', ev, eng, st, 'lock %s is released but not held (%s)' % (
                        show(key), d.get(key, 'never acquired')))
            d.pop(key, None)
            d[key] = 'released'
        elif ev.kind == 'ret' and ev.name == 'send' and (recv_attr(ev, '_upload_send')):
            arg = ev.args[0] if ev.args else None
            el = arg[1] if arg and arg[0] == 'tuple' and len(arg) > 1 else None
            if el is None:
                self.bad('lock-balance', ev, eng, st, 'upload job without a cache entry')
            else:
                held = [k for k in key_of_entry(el) if d.get(k) == 'held']
                if not held:
                    self.bad('lock-balance', ev, eng, st, 'upload job handed over without holding the block lock')
                for k in held:
                    d[k] = 'handed'
        else:
            use = self.use_of(ev, st, eng)
            if use is not None:
                what, keys = use
                self.ctx.ok('use-under-lock', '%s in %s' % (what, ev.fi.short))
                heldk = [k for k, v in d.items() if v == 'held']
                if not heldk:
                    self.bad('use-under-lock', ev, eng, st, '%s without holding the block lock' % what)
                elif None not in keys and not any(k in heldk for k in keys):
                    # several locks may be held only through different names for one key
                    self.bad('use-under-lock', ev, eng, st, '%s while holding the lock of a different block (%s)' % (
                        what, ', '.join(show(k) for k in heldk)))
            return auto
        return tuple(sorted(d.items(), key=repr))

    def use_of(self, ev, st, eng):
        if ev.kind == 'call':
            if ev.qual.endswith('CacheDict.remove') or (ev.name in ('pop', 'remove') and recv_attr(ev, 'cache')):
                return 'removing a cache entry', [ev.arg(0, 'key')]
            if ev.name in ('read', 'write', 'seek', 'truncate') and cls_name(eng, ev.recv) == 'CacheEntry':
                return 'CacheEntry.%s()' % ev.name, key_of_entry(ev.recv)
            if ev.name in ('sha256_fh', 'write_fh') or ev.thread:
                for a in ev.args:
                    if cls_name(eng, a) == 'CacheEntry':
                        return 'reading a cache entry in %s()' % ev.name, key_of_entry(a)
            if ev.name == '_get_entry' and ev.target is not None:
                return 'looking up a cache entry', [('tuple', ev.arg(0, 'inode'), ev.arg(1, 'blockno'))]
        if ev.kind == 'yield' or ev.kind == 'setitem' and is_attr(ev.recv, 'cache'):
            if ev.kind == 'setitem':
                return 'adding a cache entry', [ev.args[0]]
            if eng.entry.name == 'get':
                return 'handing out a cache entry', [None]
        return None


def yield_outcomes(ctx):
    pass


class GetPolicy(LockPolicy):
    pass


@check('B01', explanation='''Typestate analysis of the block locks: every path through every BlockCache method (loops taken up to
two times, exceptions forked at every awaited or file-system call, body of the get() context manager both
returning and raising) is tracked from acquire to release or hand-off; uses of cache entries must happen with the
lock of that entry held; MultiLock itself grants a key only in a state in which the key is known to be free and
no task switch happened since.''')
def b01(ctx):
    repo = ctx.repo
    ctx.rule('lock-balance', 'every acquired block lock is released exactly once or handed to the upload job, on every exit')
    ctx.rule('use-under-lock', 'cache entries are read, written, handed out, added or removed only with their lock held')
    ctx.rule('grant', 'MultiLock adds a key only when it is known to be absent with no await in between; release removes it and wakes waiters')
    ctx.rule('lock-owner', 'block_lock and locked_keys are not touched outside the analysed functions')

    visited = set()
    for m in methods_of(repo, BC):
        uses_lock = True
        if m.name in ('__init__', 'create', 'load_cache', '__del__', 'get_usage', '__len__', 'flush_local'):
            continue
        init = ()
        bind = {}
        if m.name == '_do_upload':
            el = ('param', 'el', m.qual)
            init = (((('tuple', ('attr', el, 'inode'), ('attr', el, 'blockno'))), 'held'),)
        elif m.name == '_get_entry':
            init = ((('tuple', ('param', 'inode', m.qual), ('param', 'blockno', m.qual)), 'held'),)
        pol = LockPolicy()
        pol.opaque = pol.opaque - {m.short}
        mon = LockMonitor(ctx, init)
        if m.is_cm:
            eng, outs = run_cm(ctx, m, pol, mon)
        else:
            eng, outs = ctx.run(m, pol, mon)
        visited |= eng.stats['functions']
        for o in outs:
            if is_assertion(o):
                continue
            d = dict(o.st.auto)
            for k, v in d.items():
                if v == 'held' and m.name != '_get_entry':
                    how = 'returns' if o.kind == 'return' else 'raises %s' % (o.val[1] if o.val else '')
                    ctx.violate('lock-balance', '%s exit with lock held' % m.qual,
                                '%s %s with lock %s still held' % (m.short, how, show(k)), m.loc(),
                                eng.describe_trace(o.st))
                if v != 'held' and m.name == '_get_entry':
                    ctx.violate('lock-balance', '%s releases caller lock' % m.qual,
                                '_get_entry gives up the lock of its caller', m.loc(), eng.describe_trace(o.st))
            if m.name == '_do_upload' and not any(v == 'released' for v in d.values()):
                ctx.violate('lock-balance', '%s does not release' % m.qual, '_do_upload ends without releasing the block lock',
                            m.loc(), eng.describe_trace(o.st))
        del uses_lock, bind
    # MultiLock
    multilock(ctx, visited)
    for fn in handle_users(ctx):
        ctx.run(fn, StdPolicy(opaque=frozenset({'BlockCache.get'})), HandleMonitor(ctx))
    # nobody else touches the lock
    for mod in repo.modules.values():
        for fn in list(mod.functions.values()) + [x for c in mod.classes.values() for x in c.methods.values()]:
            for n in walk_own(fn.node):
                if isinstance(n, ast.Attribute) and n.attr in ('locked_keys', 'block_lock'):
                    own = fn.qual in visited or fn.name == '__init__' and fn.cls is not None and fn.cls.name in ('MultiLock', 'BlockCache')
                    ctx.ok('lock-owner', fn.short)
                    if not own:
                        ctx.violate('lock-owner', '%s uses %s' % (fn.qual, n.attr),
                                    '%s touches %s outside the analysed functions' % (fn.short, n.attr), fn.loc(n))
    for r in ('lock-balance', 'use-under-lock', 'grant', 'lock-owner'):
        ctx.floor(r)


def is_assertion(o):
    '''Exit through an explicit internal-consistency error.'''
    return o.kind == 'raise' and o.val is not None and o.val[1] in ('builtins.RuntimeError', 'builtins.AssertionError')


def run_cm(ctx, fi, pol, mon):
    '''Run a context manager function with a body that may return or raise.'''
    from sa.interp import Engine, Outcome

    eng = Engine(ctx.repo, pol, mon)

    def cb(st, val):
        s = st.copy()
        ev = Event('yield', fi.node, fi, args=(val,), res=val)
        eng.emit(s, ev)
        eng.clobber(s, eng.nid(fi.node, 'body'))
        s2 = s.copy()
        return [Outcome('next', s), Outcome('raise', s2, ('exc', 'any', (), ()))]

    orig = eng.e_Yield

    def e_yield(node, st):
        if eng.fi.node is not fi.node:
            return orig(node, st)
        res = []
        vals = eng.ev(node.value, st) if node.value is not None else [(st, NONE)]
        for s, v in vals:
            for o in cb(s, v):
                if o.kind == 'next':
                    res.append((o.st, NONE))
                else:
                    eng.throw(o.st, o.val)
        return res

    eng.e_Yield = e_yield
    outs = eng.run(fi)
    ctx.absorb(eng, len(outs))
    return eng, outs


class GrantMonitor(Monitor):
    def __init__(self, ctx):
        self.ctx = ctx

    def keep(self, ev, st, eng):
        if ev.kind == 'call' and recv_attr(ev, 'locked_keys'):
            if ev.name == 'add':
                self.ctx.ok('grant', '%s adds key' % ev.fi.short)
                r = st.truth(('in', ev.args[0], ev.recv))
                if r is not False:
                    self.ctx.violate('grant', '%s add' % eng.entry.qual,
                                     'a key is locked without having been seen free since the last task switch',
                                     ev.loc, eng.describe_trace(st))
                return ('add', ev.args[0])
            if ev.name in ('remove', 'discard'):
                return ('remove', ev.args[0])
            return ('other', ev.name)
        if ev.kind == 'call' and recv_attr(ev, 'cond') and ev.name in ('notify_all', 'notify'):
            return (ev.name,)
        if recv_attr(ev, 'cond') and (ev.kind, ev.name) in (('ret', 'acquire_nowait'), ('call', 'release')):
            return ('cond', ev.name)
        if ev.kind in ('enter', 'exit') and is_attr(ev.recv, 'cond'):
            return ('cond', ev.kind)
        if ev.kind in ('setattr',) and ev.name == 'locked_keys':
            return ('other', 'assign')
        return None


class GrantPolicy(StdPolicy):
    inline_modules = {'s3ql.multi_lock'}

    def raises(self, ev, eng):
        if ev.name == 'acquire_nowait':
            return ('trio.WouldBlock',)
        if ev.name == 'wait':
            return ('any',)
        return ()


class CancelPolicy(StdPolicy):
    inline_modules = {'s3ql.multi_lock'}
    enter_raises = True

    def raises(self, ev, eng):
        if ev.awaited or ev.kind in ('await', 'enter') and not (ev.kind == 'enter' and ev.name in ('CancelScope', 'move_on_after', 'suppress')):
            return ('trio.Cancelled',)
        return ()


class CancelMonitor(Monitor):
    '''Where a pending cancellation is delivered outside of shielded scopes.'''

    def keep(self, ev, st, eng):
        if ev.kind in ('enter', 'exit') and ev.recv is not None and mentions(ev.recv, lambda u: u[0] == 'res' and u[1].endswith('CancelScope')
                                                                              or u[0] == 'new' and u[1].endswith('CancelScope')):
            return ('shield', ev.kind)
        if ev.kind in ('enter', 'exit') and ev.name == 'CancelScope':
            return ('shield', ev.kind)
        if ev.kind == 'fault':
            depth = sum({'enter': 1, 'exit': -1}[e[1]] for e in st.auto if e[0] == 'shield')
            return ('cancelled',) if depth < 1 else ('shielded',)
        if ev.kind == 'call' and ev.name in ('remove', 'discard') and is_attr(ev.recv, 'locked_keys'):
            return ('remove',)
        return None


def multilock(ctx, visited):
    repo = ctx.repo
    ML = 'multi_lock.MultiLock'
    for name in ('acquire', 'acquire_nowait', 'release'):
        fi = repo.func('%s.%s' % (ML, name))
        eng, outs = ctx.run(fi, GrantPolicy(), GrantMonitor(ctx))
        visited |= eng.stats['functions']
        key = ('param', 'key', fi.qual)
        for o in outs:
            tr = o.st.auto
            adds = [e for e in tr if e[0] == 'add']
            rem = [e for e in tr if e[0] == 'remove']
            def viol(msg):
                ctx.violate('grant', '%s: %s' % (fi.qual, msg), msg, fi.loc(), eng.describe_trace(o.st))
            if any(e[0] == 'other' for e in tr):
                viol('the set of locked keys is modified in an unexpected way')
            if any(e[1] != key for e in adds + rem):
                viol('a key other than the requested one is modified')
            depth = 0
            for e in tr:
                if e[0] == 'cond':
                    depth += {'enter': 1, 'acquire_nowait': 1, 'exit': -1, 'release': -1}[e[1]]
                elif e[0] in ('add', 'remove', 'notify_all', 'notify') and depth < 1:
                    viol('locked keys are changed outside the condition')
            if name == 'release':
                if o.kind == 'return':
                    ctx.ok('grant', 'release path')
                    if not rem or adds:
                        viol('release returns without removing the key')
                    elif ('notify_all',) not in tr[tr.index(rem[-1]):]:
                        viol('release does not wake up all waiting tasks after removing the key')
            else:
                if o.kind == 'return':
                    ctx.ok('grant', '%s path' % name)
                    granted = True if name == 'acquire' else o.val == TRUE
                    if name == 'acquire_nowait' and o.val not in (TRUE, FALSE):
                        granted = o.st.truth(('true', o.val))
                    if granted and len(adds) != 1:
                        viol('%s reports success without having locked the key exactly once' % name)
                    if not granted and adds:
                        viol('%s reports failure although it locked the key' % name)
                    if rem:
                        viol('%s removes a locked key' % name)
                elif adds and not rem:
                    viol('%s raises although it locked the key' % name)
                if depth != 0:
                    viol('%s exits with the condition still held' % name)
        if name == 'release':
            eng, outs = ctx.run(fi, CancelPolicy(), CancelMonitor())
            for o in outs:
                ctx.ok('grant', 'release in a cancelled task')
                if ('cancelled',) in o.st.auto and not any(e[0] == 'remove' for e in o.st.auto):
                    ctx.violate('grant', '%s: cancelled' % fi.qual, 'a cancelled task keeps the lock: releasing it waits without being shielded '
                                'from cancellation', fi.loc(), eng.describe_trace(o.st))
        fi2 = repo.func('%s.__call__' % ML, optional=True)
        if fi2 is not None:
            visited.add(fi2.qual)


# -------------------------------------------------------------------------------------------
# use of handed-out entries by callers of BlockCache.get


class HandleMonitor(Monitor):
    '''Blocks obtained with `async with cache.get()` are used only inside the with block.'''

    def __init__(self, ctx):
        self.ctx = ctx

    def step(self, auto, ev, st, eng):
        if ev.kind == 'enter' and cls_name(eng, ev.recv) == 'CacheEntry':
            return auto | {ev.recv}
        if ev.kind == 'exit' and ev.recv in auto:
            return auto - {ev.recv}
        if ev.kind == 'call' and cls_name(eng, ev.recv) == 'CacheEntry':
            self.ctx.ok('use-under-lock', 'CacheEntry.%s() in %s' % (ev.name, ev.fi.short))
            if ev.recv not in auto:
                self.ctx.violate('use-under-lock', '%s: CacheEntry.%s' % (ev.fi.qual, ev.name),
                                 'cache entry is used after its lock has been given back', ev.loc, eng.describe_trace(st))
        return auto

    def init(self):
        return frozenset()


def handle_users(ctx):
    for m in ctx.repo.modules.values():
        if m.name in ('s3ql.block_cache',) or m.name.startswith('contrib'):
            continue
        for fn in list(m.functions.values()) + [x for c in m.classes.values() for x in c.methods.values()]:
            uses = False
            for n in walk_own(fn.node):
                if isinstance(n, (ast.With, ast.AsyncWith)):
                    for it in n.items:
                        c = it.context_expr
                        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'get' \
                                and isinstance(c.func.value, ast.Attribute) and c.func.value.attr in ('cache', 'block_cache'):
                            uses = True
            if uses:
                yield fn


# -------------------------------------------------------------------------------------------
# B02


class DropMonitor(Monitor):
    '''auto: (frozenset of fresh lookups, pending removal key)'''

    def __init__(self, ctx, is_remove):
        self.ctx = ctx
        self.is_remove = is_remove

    def init(self):
        return (frozenset(), None)

    def step(self, auto, ev, st, eng):
        fresh, pending = auto
        if ev.kind == 'await':
            fresh = frozenset()
        elif ev.kind == 'ret' and ev.name == 'get' and is_attr(ev.recv, 'cache') and ev.args:
            fresh = fresh | {(ev.args[0], ev.res)}
        elif ev.kind == 'getitem' and is_attr(ev.recv, 'cache'):
            fresh = fresh | {(ev.args[0], ('item', ev.recv, ev.args[0]))}
        elif ev.kind == 'call' and self.is_drop(ev, eng):
            key = ev.arg(0, 'key')
            self.ctx.ok('no-drop-dirty', '%s drops in %s' % (eng.entry.short, ev.fi.short))
            if self.is_remove:
                pending = key
            else:
                self.check_drop(ev, st, eng, key, fresh)
        elif pending is not None:
            sq = sql_of(ev) if ev.kind == 'call' else None
            if sq is not None and sq.stmt.kind == 'delete' and sq.stmt.table == 'inode_blocks' and \
                    ('tuple', sq.where('inode'), sq.where('blockno')) == pending:
                pending = None
            elif ev.kind == 'handler' and ev.name == 'NoSuchRowError':
                pending = None
            elif ev.kind == 'call' and ev.name == 'release' and is_lock(eng, ev):
                self.ctx.violate('no-drop-dirty', '%s keeps the reference' % eng.entry.qual,
                                 'the cached block is dropped although the file still refers to its old content',
                                 ev.loc, eng.describe_trace(st))
                pending = None
        return (fresh, pending)

    def is_drop(self, ev, eng):
        if ev.qual.endswith('CacheDict.remove'):
            return True
        if ev.name in ('pop', 'popitem', 'clear', 'remove') and is_attr(ev.recv, 'cache') and ev.fi.cls is not None and \
                ev.fi.cls.name == 'BlockCache':
            return True
        return False

    def check_drop(self, ev, st, eng, key, fresh):
        # candidates: entries known to be clean in this state
        good = False
        for k, res in fresh:
            if k != key:
                continue
            for a, v in st.facts.items():
                if a[0] == 'true' and v is False and is_attr(a[1], 'dirty'):
                    el = a[1][1]
                    same = el == res or st.truth(('is',) + tuple(sorted((el, res), key=repr))) is True or \
                        st.truth(('eq',) + tuple(sorted((el, res), key=repr))) is True
                    if same and key in key_of_entry(el) + [k]:
                        good = True
        if not good:
            self.ctx.violate('no-drop-dirty', '%s drop' % eng.entry.qual,
                             'a block is dropped from the cache without having been found clean (and still being the '
                             'current entry) since the last task switch', ev.loc, eng.describe_trace(st))


class DirtyMonitor(Monitor):
    '''CacheEntry methods: every modification of the file sets dirty first (no failing call in between).'''

    def keep(self, ev, st, eng):
        if ev.kind == 'setattr' and ev.name == 'dirty' and ev.recv[0] == 'self':
            return ('dirty', ev.res)
        if ev.kind == 'call' and ev.name in ('write', 'truncate', 'writelines') and is_attr(ev.recv, 'fh'):
            return ('modify', ev.name)
        if ev.kind == 'call' and ev.qual in ('os.truncate', 'os.ftruncate', 'os.pwrite', 'os.write'):
            return ('modify', ev.name)
        return None


@check('B02', explanation='''Path-sensitive check that every removal of an entry from the cache happens under the
entry lock in a state where, since the last await, the entry was looked up again, is identical to the candidate and
is not dirty (BlockCache.remove instead has to remove the file's reference to the block as well); that all
CacheEntry methods that modify the file mark it dirty before doing so; that dirty is reset only on the two upload
success paths; that a whole cache directory is deleted only when the local metadata is not used.''')
def b02(ctx):
    repo = ctx.repo
    ctx.rule('no-drop-dirty', 'an entry leaves the cache only if known clean and current since the last task switch, or with its file reference')
    ctx.rule('mark-dirty', 'every modification of a cache file sets dirty before modifying')
    ctx.rule('clear-dirty', 'dirty is reset only by the upload success paths')
    ctx.rule('drop-owner', 'no function outside the analysed ones removes cache entries or cache files')
    ctx.rule('drop-directory', 'the cache directory is deleted only when remote metadata replaces the local copy (and no check of it is pending)')
    visited = set()
    for m in methods_of(repo, BC):
        pol = LockPolicy()
        pol.opaque = pol.opaque - {m.short}
        mon = DropMonitor(ctx, m.name == 'remove')
        if m.is_cm:
            eng, outs = run_cm(ctx, m, pol, mon)
        else:
            eng, outs = ctx.run(m, pol, mon)
        visited |= eng.stats['functions']
    for m in repo.cls('block_cache.CacheEntry').methods.values():
        eng, outs = ctx.run(m, StdPolicy(os_raises=False), DirtyMonitor())
        for o in outs:
            dirty = None
            for e in o.st.auto:
                if e[0] == 'dirty':
                    dirty = e[1]
                    if e[1] == FALSE and m.name != '__init__':
                        ctx.violate('mark-dirty', '%s clears' % m.qual, 'CacheEntry.%s marks the entry clean' % m.name, m.loc())
                else:
                    ctx.ok('mark-dirty', m.short)
                    if dirty != TRUE:
                        ctx.violate('mark-dirty', '%s modifies' % m.qual,
                                    'CacheEntry.%s modifies the cache file before marking the entry dirty' % m.name, m.loc(),
                                    eng.describe_trace(o.st))
            if dirty == FALSE and m.name != '__init__':
                ctx.violate('mark-dirty', '%s ends clean' % m.qual, 'entry ends up clean', m.loc())
    ctx.floor('mark-dirty', 2)
    # direct writes to an entry's file from elsewhere, removal and clearing sites
    allowed_clear = clear_dirty_sites(ctx)
    for mod in repo.modules.values():
        for fn in list(mod.functions.values()) + [x for c in mod.classes.values() for x in c.methods.values()]:
            for n in walk_own(fn.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    a = n.func
                    if a.attr in ('write', 'truncate', 'writelines') and isinstance(a.value, ast.Attribute) and a.value.attr == 'fh' \
                            and (fn.cls is None or fn.cls.name != 'CacheEntry') and mod.name in ('s3ql.block_cache', 's3ql.fs'):
                        ctx.violate('mark-dirty', '%s bypass' % fn.qual, 'cache file modified without CacheEntry', fn.loc(n))
                    if mod.name in ('s3ql.block_cache', 's3ql.fs', 's3ql.mount') and a.attr == 'unlink' and \
                            not (isinstance(a.value, ast.Name) and a.value.id == 'os') and \
                            not (isinstance(a.value, ast.Name) and a.value.id in ('self',) and fn.name != 'remove') and \
                            not (isinstance(a.value, ast.Attribute)):
                        ctx.ok('drop-owner', fn.short)
                        if fn.short != 'CacheDict.remove' and fn.qual not in known_helpers(visited):
                            ctx.violate('drop-owner', '%s unlink' % fn.qual, 'cache file removed outside CacheDict.remove', fn.loc(n))
                    if a.attr in ('pop', 'popitem', 'clear', 'remove') and isinstance(a.value, ast.Attribute) and a.value.attr == 'cache' \
                            and mod.name in ('s3ql.fs', 's3ql.mount') and isinstance(a.value.value, ast.Attribute) and a.value.value.attr in ('cache', 'block_cache'):
                        ctx.violate('drop-owner', '%s %s' % (fn.qual, a.attr), 'cache entries removed from outside BlockCache', fn.loc(n))
                if isinstance(n, ast.Attribute) and n.attr == 'dirty' and isinstance(n.ctx, ast.Store) and \
                        mod.name in ('s3ql.block_cache', 's3ql.fs', 's3ql.mount'):
                    ctx.ok('clear-dirty', fn.short)
                    if fn.qual not in allowed_clear:
                        ctx.violate('clear-dirty', '%s sets dirty' % fn.qual, 'dirty flag of a cache entry is changed here', fn.loc(n))
    drop_directory(ctx)
    from . import cache2
    ctx.rule('current', 'what is uploaded is the block that the cache holds at that time')
    cache2.current_entry(ctx, 'current')
    ctx.floor('no-drop-dirty', 2)


def known_helpers(visited):
    return {q for q in visited if q not in known_functions()}


class OutcomeMonitor(Monitor):
    '''Records writes to entry state for the upload functions.'''

    def keep(self, ev, st, eng):
        if ev.kind in ('call', 'ret') and ev.name == 'write_fh' and any(cls_name(eng, a) == 'CacheEntry' for a in ev.args):
            return ('write_fh', ev.kind, ev.args[0])
        if ev.kind == 'setattr' and ev.name == 'dirty' and ev.recv[0] != 'self':
            return ('dirty', ev.recv, ev.res)
        if ev.kind == 'setattr' and ev.name == 'in_transit':
            return ('in_transit', ev.recv, ev.res)
        if ev.kind == 'setattr' and ev.name == '_in_transit_count':
            d = ev.extra
            return ('count', (d[0], cval(d[1])) if d else ('set', ev.res))
        if ev.kind == 'await':
            return ('await', ev.name)
        sq = sql_of(ev) if ev.kind in ('call', 'ret') else None
        if sq is not None:
            s = sq.stmt
            if s.kind == 'select' and ev.kind == 'ret':
                return ('select', s.table, tuple(tuple(x) for x in s.select), sq.where('hash'), sq.where('inode'),
                        sq.where('blockno'), sq.where('id'), ev.res)
            if s.kind != 'select' and ev.kind == 'ret':
                return ('sql', s.kind, s.table, s.or_, tuple((c, sq.col(c)) for c in s.cols),
                        tuple((c, sq.where(c)) for c in ('id', 'inode', 'blockno', 'hash') if sq.where(c) is not None), ev.res)
            return None
        if ev.kind == 'handler' and ev.name == 'NoSuchRowError':
            return ('norow',)
        if ev.kind == 'setitem' and is_attr(ev.recv, 'in_flight_uploads'):
            return ('register', ev.args[0], ev.args[1])
        if ev.kind in ('call',) and is_attr(ev.recv, 'in_flight_uploads') and ev.name in ('pop',):
            return ('unregister', ev.args[0], ev.res)
        if ev.kind == 'delitem' and is_attr(ev.recv, 'in_flight_uploads'):
            return ('unregister', ev.args[0], None)
        if ev.kind == 'call' and ev.name == 'set' and not ev.args:
            return ('wake', ev.recv)
        if ev.kind in ('call',) and ev.name in ('notify_all', 'notify') and is_attr(ev.recv, 'transfer_completed'):
            return ('notify', ev.name)
        if ev.kind in ('call', 'ret') and ev.name == 'send' and is_attr(ev.recv, '_upload_send'):
            return ('send', ev.kind, ev.args[0])
        if ev.kind in ('call', 'ret') and ev.name == 'send' and is_attr(ev.recv, '_remove_send'):
            return ('send_remove', ev.kind, ev.args[0])
        if ev.kind in ('call', 'ret') and ev.name == '_deref_obj':
            return ('deref', ev.kind, ev.args[0])
        if ev.kind in ('ret',) and ev.name in ('acquire',) and is_lock(eng, ev):
            return ('acquire', ev.args[0])
        if ev.kind in ('call',) and ev.name in ('release',) and is_lock(eng, ev):
            return ('release', ev.args[0])
        if ev.kind == 'ret' and ev.name == 'sha256_fh':
            return ('hash', ev.args[0], ev.res)
        return None


class UploadPolicy(LockPolicy):
    def raises(self, ev, eng):
        # a failing hand-off means that the workers are gone: the process is going down with the
        # file system still marked as mounted
        if ev.name == 'send' and is_attr(ev.recv, '_upload_send'):
            return ()
        if ev.name == 'aclose' or (ev.kind == 'call' and ev.name == '_deref_obj'):
            return ()
        return LockPolicy.raises(self, ev, eng)


def upload_runs(ctx):
    res = {}
    for n in ('_do_upload', 'upload_if_dirty'):
        fi = ctx.repo.func('%s.%s' % (BC, n))
        pol = UploadPolicy()
        pol.opaque = pol.opaque - {fi.short}
        facts = {}
        eng, outs = ctx.run(fi, pol, OutcomeMonitor())
        res[n] = (fi, eng, outs)
    return res


def clear_dirty_sites(ctx):
    '''Functions allowed to store to CacheEntry.dirty (their paths are judged by B02/B03).'''
    runs = upload_runs(ctx)
    allowed = {m.qual for m in ctx.repo.cls('block_cache.CacheEntry').methods.values()}
    for n, (fi, eng, outs) in runs.items():
        allowed.add(fi.qual)
        allowed |= known_helpers(eng.stats['functions'])
        for o in outs:
            judge_clear(ctx, 'clear-dirty', fi, eng, o)
    for m in ctx.repo.modules.values():
        if m.name in ('s3ql.inode_cache',):
            for c in m.classes.values():
                allowed |= {x.qual for x in c.methods.values()}
    return allowed


def judge_clear(ctx, rule, fi, eng, o):
    '''dirty=False only after the object was written, or found to exist, with the hash computed before.'''
    written = False
    found = None
    hashed = None
    for e in o.st.auto:
        if e[0] == 'write_fh' and e[1] == 'ret':
            written = True
        elif e[0] == 'hash':
            hashed = e[2]
        elif e[0] == 'select' and e[1] == 'objects' and e[3] is not None:
            if hashed is not None and mentions(e[3], lambda t: t == hashed):
                found = e
        elif e[0] == 'release' and not written:
            found = None
        elif e[0] == 'dirty' and e[2] != TRUE:
            ctx.ok(rule, fi.short)
            if not (written or found):
                ctx.violate(rule, '%s clears early' % fi.qual,
                            'the entry is marked as stored on a path on which nothing has been stored', fi.loc(),
                            eng.describe_trace(o.st))


class DirPolicy(StdPolicy):
    stable = frozenset({'needs_fsck', 'is_mounted', 'seq_no'})  # fields of a local object
    inline_modules = frozenset()
    os_raises = False
    await_raises = False
    norow = False


class DirMonitor(Monitor):
    def keep(self, ev, st, eng):
        if ev.kind == 'call':
            if ev.name == 'rmtree' and ev.args and mentions_str(ev.args[0], '-cache'):
                nf = None
                for a, v in st.facts.items():
                    if a[0] == 'true' and is_attr(a[1], 'needs_fsck'):
                        nf = v
                return ('rmtree', nf)
            if ev.qual.endswith('database.Connection'):
                return ('local-db',)
            if ev.name == 'download_metadata':
                return ('download',)
        return None


def mentions_str(t, s):
    return mentions(t, lambda x: (x[0] == 'const' and isinstance(x[1], str) and s in x[1]) or (x[0] == 'fmt' and s in x[1]))


def drop_directory(ctx):
    for name in ('mount.get_metadata', 'fsck.fsck'):
        fi = ctx.repo.func(name)
        eng, outs = ctx.run(fi, DirPolicy(), DirMonitor())
        for o in outs:
            for i, e in enumerate(o.st.auto):
                if e[0] == 'rmtree':
                    ctx.ok('drop-directory', fi.short)
                    before = [x[0] for x in o.st.auto[:i]]
                    if 'local-db' in before and 'download' not in before:
                        ctx.violate('drop-directory', '%s rmtree' % fi.qual,
                                    'the cache directory is deleted although the local metadata (and its dirty blocks) is in use',
                                    fi.loc(), eng.describe_trace(o.st))
                    if e[1] is not False:
                        ctx.violate('drop-directory', '%s rmtree without needs_fsck check' % fi.qual,
                                    'the cache directory is deleted although the file system was not unmounted cleanly', fi.loc(),
                                    eng.describe_trace(o.st))
    ctx.floor('drop-directory', 2)


# -------------------------------------------------------------------------------------------
# B03


@check('B03', explanation='''All paths of _do_upload (object write returning / failing) and upload_if_dirty are enumerated;
per outcome the effects on the entry, the database row, the in-flight table, the waiters and the in-transit count are
compared with the required set, and no task switch may lie between the end of the write and the recording of its
outcome. Hand-off failures (all workers gone) are outside: the process is then ending with the file system dirty.''')
def b03(ctx):
    repo = ctx.repo
    ctx.rule('success', 'write returned => phys_size stored, dirty cleared, hash kept')
    ctx.rule('failure', 'write raised => dirty untouched, objects.hash set to NULL for that object')
    ctx.rule('finish', 'every outcome: in_transit cleared, event removed and set, lock released, waiters notified; outcome recorded without task switch')
    ctx.rule('in-transit-balance', 'in_transit flag and _in_transit_count change together and are undone unless handed off')
    ctx.rule('handover', 'a job that cannot be handed over leaves the block modified and unmarked, its object unusable, waiters woken')
    ctx.rule('in-flight-wait', 'an object with an upload in flight is not downloaded before the upload finished')
    runs = upload_runs(ctx)
    fi, eng, outs = runs['_do_upload']
    el = ('param', 'el', fi.qual)
    oid = ('param', 'obj_id', fi.qual)

    def viol(rule, o, msg, eng=eng, fi=fi):
        ctx.violate(rule, '%s: %s' % (fi.qual, msg), msg, fi.loc(), eng.describe_trace(o.st))

    for o in outs:
        if is_assertion(o):
            continue
        tr = o.st.auto
        started = next((i for i, e in enumerate(tr) if e[0] == 'write_fh' and e[1] == 'call'), None)
        done = next((i for i, e in enumerate(tr) if e[0] == 'write_fh' and e[1] == 'ret'), None)
        sql = [e for e in tr if e[0] == 'sql']
        phys = [e for e in sql if e[1:3] == ('update', 'objects') and any(c == 'phys_size' for c, _ in e[4]) and dict(e[5]).get('id') == oid]
        nul = [e for e in sql if e[1:3] == ('update', 'objects') and ('hash', NONE) in e[4] and dict(e[5]).get('id') == oid]
        for e in sql:
            if e not in phys and e not in nul:
                viol('finish', o, 'unexpected database change %s %s' % (e[1], e[2]))
        clean = [e for e in tr if e[0] == 'dirty' and e[1] == el and e[2] == FALSE]
        if started is not None:
            if tr[started][2] != ('fmt', 's3ql_data_{}', (oid,)):
                viol('success', o, 'the object is written under a name other than s3ql_data_<id>')
        if done is not None:
            ctx.ok('success', 'path of %d events' % len(tr))
            if not phys:
                viol('success', o, 'successful upload does not record the stored size')
            if nul:
                viol('success', o, 'successful upload marks the object as never stored')
            if not clean:
                viol('success', o, 'successful upload leaves the block marked as modified')
            for e in phys:
                v = dict(e[4]).get('phys_size')
                if not mentions(v, lambda t: t[0] == 'res' and t[1].endswith('write_fh')):
                    viol('success', o, 'recorded object size is not the size returned by the backend')
        else:
            ctx.ok('failure', 'path of %d events' % len(tr))
            if clean:
                viol('failure', o, 'failed upload marks the block as stored')
            if not nul:
                viol('failure', o, 'failed upload leaves the object usable for de-duplication')
            if phys:
                viol('failure', o, 'failed upload records a stored size')
        # finish
        ctx.ok('finish', 'path of %d events' % len(tr))
        idx = {}
        for i, e in enumerate(tr):
            if e[0] == 'in_transit' and e[2] == FALSE:
                idx.setdefault('transit', i)
            elif e[0] == 'unregister' and e[1] == oid:
                idx.setdefault('unregister', i)
            elif e[0] == 'wake':
                idx.setdefault('wake', i)
            elif e[0] == 'release':
                idx.setdefault('release', i)
            elif e == ('notify', 'notify_all'):
                idx.setdefault('notify', i)
        for k, msg in (('transit', 'block stays marked as being uploaded'),
                       ('unregister', 'upload stays registered as in flight'),
                       ('wake', 'tasks waiting for this upload are not woken'),
                       ('release', 'the block lock is not released'),
                       ('notify', 'tasks waiting for any transfer are not woken')):
            if k not in idx:
                # a failure inside the release/notify awaits cannot be repaired by more code
                if k == 'notify' and 'release' in idx and o.kind == 'raise' and done is not None:
                    continue
                viol('finish', o, 'after an upload %s' % msg)
        base = done if done is not None else started
        if base is not None and 'wake' in idx:
            limit = max(idx.get('wake', 0), max([i for i, e in enumerate(tr) if e in phys or e in nul or e in clean] or [0]))
            for i in range(base + 1, limit):
                if tr[i][0] == 'await' and not (done is None and tr[i][1] == 'write_fh'):
                    viol('finish', o, 'another task can run between the end of the write and the recording of its outcome')
            rec = [i for i, e in enumerate(tr) if e in phys or e in nul or e in clean]
            if rec and max(rec) > idx['wake']:
                viol('finish', o, 'waiting tasks are woken before the outcome is recorded')
        if 'notify' in idx and 'transit' in idx and idx['notify'] < idx['transit']:
            viol('finish', o, 'waiting tasks are notified before the block stops being in transit')

    # in-transit balance on all functions
    for n, (fi, eng, outs) in runs.items():
        for o in outs:
            if is_assertion(o):
                continue
            flag = None
            cnt = 0
            handed = False
            for e in o.st.auto:
                if e[0] == 'in_transit':
                    flag = e[2]
                    ctx.ok('in-transit-balance', fi.short)
                elif e[0] == 'count':
                    d = e[1]
                    if d[0] == 'Add' and d[1] == 1:
                        cnt += 1
                    elif d[0] == 'Sub' and d[1] == 1:
                        cnt -= 1
                    else:
                        viol('in-transit-balance', o, 'in-transit counter changed by something other than one', eng, fi)
                elif e[0] == 'send' and e[1] == 'ret':
                    handed = True
                elif e[0] == 'dirty' and flag == TRUE and False:
                    pass
            if n == '_do_upload':
                if flag != FALSE or cnt != -1:
                    viol('in-transit-balance', o, 'upload job does not undo the in-transit marking exactly once', eng, fi)
            elif handed:
                if flag != TRUE or cnt != 1:
                    viol('in-transit-balance', o, 'a block handed over for upload is not marked in transit exactly once', eng, fi)
            elif flag == TRUE or cnt != 0:
                viol('in-transit-balance', o, 'in-transit marking is left behind although no upload was started', eng, fi)
    # a job is handed over only with hash computed under the lock and the block marked
    fi, eng, outs = runs['upload_if_dirty']
    for o in outs:
        tr = o.st.auto
        for i, e in enumerate(tr):
            if e[0] == 'hash':
                before = tr[:i]
                marked = [x for x in before if x[0] == 'in_transit' and x[2] == TRUE]
                locked = [x for x in before if x[0] == 'acquire']
                if not marked or not locked:
                    viol('in-transit-balance', o, 'content is hashed before the block is locked and marked in transit', eng, fi)
    handover(ctx)
    in_flight_wait(ctx, 'in-flight-wait', '_get_entry')
    for r in ('handover', 'success', 'failure', 'finish', 'in-transit-balance'):
        ctx.floor(r)


class HandoverPolicy(UploadPolicy):
    def raises(self, ev, eng):
        if ev.name == 'send' and is_attr(ev.recv, '_upload_send'):
            return ('any',)
        return UploadPolicy.raises(self, ev, eng)


def handover(ctx):
    fi = ctx.repo.func('%s.upload_if_dirty' % BC)
    pol = HandoverPolicy()
    pol.opaque = pol.opaque - {fi.short}
    eng, outs = ctx.run(fi, pol, OutcomeMonitor())
    for o in outs:
        if is_assertion(o):
            continue
        tr = o.st.auto
        i = next((i for i, e in enumerate(tr) if e[0] == 'send' and e[1] == 'call'), None)
        if i is None or any(e[0] == 'send' and e[1] == 'ret' for e in tr):
            continue
        ctx.ok('handover', 'path of %d events' % len(tr))

        def viol(msg):
            ctx.violate('handover', '%s: %s' % (fi.qual, msg), msg, fi.loc(), eng.describe_trace(o.st))
        job = tr[i][2]
        oid = job[2] if job[0] == 'tuple' and len(job) > 2 else None
        rest = tr[i:]
        if o.kind != 'raise':
            viol('a failed hand-over is not reported')
        if not any(e[0] == 'in_transit' and e[2] == FALSE for e in rest):
            viol('the block stays marked as being uploaded when the job cannot be handed over')
        if sum({'Add': 1, 'Sub': -1}.get(e[1][0], 9) for e in tr if e[0] == 'count') != 0:
            viol('the in-transit count is wrong when the job cannot be handed over')
        if any(e[0] == 'dirty' and e[2] == FALSE for e in tr):
            viol('the block is marked as stored although the job could not be handed over')
        if not any(e[0] == 'sql' and e[1] == 'update' and e[2] == 'objects' and ('hash', NONE) in e[4] and dict(e[5]).get('id') == oid for e in rest) \
                and not any(e[0] == 'sql' and e[1] == 'delete' and e[2] == 'objects' and dict(e[5]).get('id') == oid for e in rest):
            viol('the object of a job that could not be handed over remains usable for de-duplication')
        if not any(e[0] == 'unregister' for e in rest):
            viol('an upload that could not be handed over stays registered as in flight')
        elif not any(e[0] == 'wake' for e in rest):
            viol('tasks waiting for an upload that could not be handed over are not woken')
        if not any(e[0] == 'release' for e in rest):
            viol('the block stays locked when the job cannot be handed over')


class FlightMonitor(Monitor):
    '''auto: set of object ids known to have no upload in flight.'''

    def __init__(self, ctx, rule):
        self.ctx = ctx
        self.rule = rule

    def init(self):
        return frozenset()

    def step(self, auto, ev, st, eng):
        if ev.kind == 'ret' and ev.name == 'wait' and ev.recv is not None and ev.recv[0] in ('res', 'item') and \
                mentions(ev.recv, lambda t: is_attr(t, 'in_flight_uploads')):
            return auto | {('waited', ev.recv)}
        target = None
        if ev.kind == 'call' and ev.name in ('readinto_fh', 'readinto') and ev.args and ev.args[0][0] == 'fmt':
            target, what = ev.args[0][2][0], 'downloaded'
        if ev.kind == 'call' and ev.name in ('send', 'send_nowait') and is_attr(ev.recv, '_remove_send'):
            target, what = ev.args[0], 'queued for removal'
        if ev.kind == 'call' and ev.name in ('delete', 'delete_multi') and eng.entry.name != '_removal_task' and \
                recv_attr(ev, 'backend'):
            target, what = ev.args[0], 'deleted'
            if target[0] == 'fmt':
                target = target[2][0]
        if target is not None:
            self.ctx.ok(self.rule, '%s %s' % (eng.entry.short, what))
            ok = False
            for w in auto:
                if w[0] == 'waited' and mentions(w[1], lambda t: t == target):
                    ok = True
            for a, v in st.facts.items():
                if a[0] == 'isnone' and v and a[1][0] == 'res' and a[1][1].endswith('get') and \
                        mentions(a[1], lambda t: is_attr(t, 'in_flight_uploads')) and mentions(a[1], lambda t: t == target):
                    ok = True
                if a[0] == 'in' and not v and is_attr(a[2], 'in_flight_uploads') and a[1] == target:
                    ok = True
                if a[0] == 'true' and not v and a[1][0] == 'res' and mentions(a[1], lambda t: is_attr(t, 'in_flight_uploads')):
                    ok = True
            if not ok:
                self.ctx.violate(self.rule, '%s: %s' % (eng.entry.qual, what),
                                 'an object is %s while its upload may still be running' % what, ev.loc, eng.describe_trace(st))
        return auto


def in_flight_wait(ctx, rule, name):
    fi = ctx.repo.func('%s.%s' % (BC, name))
    pol = LockPolicy()
    pol.opaque = pol.opaque - {fi.short}
    ctx.run(fi, pol, FlightMonitor(ctx, rule))
    ctx.floor(rule)


# -------------------------------------------------------------------------------------------
# B04


@check('B04', explanation='''Must-precede analysis on every path of upload_if_dirty to the hand-over of an upload job: the object
row (refcount 1, the computed hash), the block link and the in-flight registration are on the path before it, with no
await after the lookup by hash; no other function hands over jobs, registers uploads or creates object rows.''')
def b04(ctx):
    ctx.rule('recorded-before-send', 'INSERT objects, link inode_blocks, in-flight registration all precede the hand-over, for the same object and block')
    ctx.rule('no-switch', 'no task switch between the lookup by hash and the hand-over / re-link')
    ctx.rule('sole-producer', 'upload jobs, in-flight registrations and object rows are produced only on the analysed paths')
    runs = upload_runs(ctx)
    fi, eng, outs = runs['upload_if_dirty']
    el = ('param', 'el', fi.qual)

    def viol(rule, o, msg):
        ctx.violate(rule, '%s: %s' % (fi.qual, msg), msg, fi.loc(), eng.describe_trace(o.st))

    for o in outs:
        tr = o.st.auto
        lookup = None
        hashed = None
        ins = link = reg = None
        for i, e in enumerate(tr):
            if e[0] == 'hash':
                hashed = e
            elif e[0] == 'select' and e[1] == 'objects' and e[3] is not None:
                lookup = (i, e[3], 'found')
            elif e[0] == 'norow' and not (i and tr[i - 1][0] == 'select' and False):
                # last lookup that found nothing
                pass
            elif e[0] == 'sql' and e[1] == 'insert' and e[2] == 'objects':
                ins = (i, dict(e[4]), e[6])
            elif e[0] == 'sql' and e[1] == 'insert' and e[2] == 'inode_blocks':
                link = (i, dict(e[4]), e[3])
            elif e[0] == 'register':
                reg = (i, e[1], e[2])
            elif e[0] == 'await' and e[1] in ('sha256_fh',):
                ins = link = reg = None
            elif e[0] == 'send' and e[1] == 'call':
                ctx.ok('recorded-before-send', 'path of %d events' % len(tr))
                arg = e[2]
                obj = arg[2] if arg[0] == 'tuple' and len(arg) == 3 else None
                if arg[0] != 'tuple' or arg[1] != el:
                    viol('recorded-before-send', o, 'the job handed over is not for the locked block')
                if ins is None or ins[2] != obj:
                    viol('recorded-before-send', o, 'an object is sent before its row has been inserted')
                else:
                    c = ins[1]
                    if c.get('refcount') != const(1):
                        viol('recorded-before-send', o, 'a new object does not start with reference count 1')
                    if hashed is None or not mentions(c.get('hash') or (), lambda t: t == hashed[2]):
                        viol('recorded-before-send', o, 'a new object is not recorded with the hash of its content')
                    if c.get('phys_size') != const(-1):
                        viol('recorded-before-send', o, 'a new object is not marked as not yet stored')
                    if c.get('length') != ('attr', el, 'size'):
                        viol('recorded-before-send', o, 'a new object is not recorded with the size of the block')
                if link is None or link[1].get('obj_id') != obj:
                    viol('recorded-before-send', o, 'an object is sent before the block has been linked to it')
                if reg is None or reg[1] != obj:
                    viol('recorded-before-send', o, 'an object is sent before its upload is registered as in flight')
                marked = [x for x in tr[:i] if x[0] == 'in_transit']
                if not marked or marked[-1][2] != TRUE:
                    viol('recorded-before-send', o, 'a block is handed over without being marked in transit')
                first = min(x[0] for x in (ins, link, reg) if x) if (ins or link or reg) else i
                for j in range(i):
                    if tr[j][0] == 'await' and j > hashed_index(tr, i) and not awaits_before_lookup(tr, j, i):
                        viol('no-switch', o, 'another task can run between the lookup of an identical object and the hand-over')
                ctx.ok('no-switch', 'path of %d events' % len(tr))
                del first
            elif e[0] == 'sql' and e[1] == 'update' and e[2] == 'objects' and lookup is not None:
                if any(x[0] == 'await' for x in tr[lookup[0] + 1:i]):
                    viol('no-switch', o, 'another task can run between finding an identical object and taking a reference to it')
                ctx.ok('no-switch', 're-link path')
        for e in tr:
            if e[0] == 'sql' and e[1] == 'insert' and e[2] == 'inode_blocks':
                c = dict(e[4])
                if c.get('inode') != ('attr', el, 'inode') or c.get('blockno') != ('attr', el, 'blockno') or e[3] != 'replace':
                    viol('recorded-before-send', o, 'the link row is not written for this block')
    # who may call
    visited = eng.stats['functions'] | {fi.qual}
    for mod in ctx.repo.modules.values():
        for fn in list(mod.functions.values()) + [x for c in mod.classes.values() for x in c.methods.values()]:
            for n in walk_own(fn.node):
                what = None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('send', 'send_nowait') \
                        and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == '_upload_send':
                    what = 'hands over an upload job'
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute)
                                                     and t.value.attr == 'in_flight_uploads' for t in n.targets):
                    what = 'registers an upload'
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.match(
                        r'\s*INSERT\s+(OR\s+\w+\s+)?INTO\s+objects\b', n.value, re.I):
                    what = 'creates an object row'
                    if fn.qual == 's3ql.fsck.Fsck.check_cache':
                        what = None
                if what:
                    ctx.ok('sole-producer', '%s: %s' % (fn.short, what))
                    if fn.qual not in visited:
                        ctx.violate('sole-producer', '%s %s' % (fn.qual, what), '%s outside the analysed paths' % what, fn.loc(n))
    for r in ('recorded-before-send', 'no-switch', 'sole-producer'):
        ctx.floor(r)


def hashed_index(tr, i):
    h = -1
    for j in range(i):
        if tr[j][0] == 'hash':
            h = j
    return h


def awaits_before_lookup(tr, j, i):
    '''Is the await at j before the last lookup by hash (select or miss) preceding i?'''
    for k in range(i - 1, j, -1):
        if tr[k][0] == 'select' and tr[k][1] == 'objects':
            return True
        if tr[k][0] == 'norow':
            return True
    return False


# -------------------------------------------------------------------------------------------
# B05


class RemovePolicy(LockPolicy):
    def raises(self, ev, eng):
        if ev.name == '_deref_obj' or (ev.awaited and ev.name in ('acquire', 'send')):
            return ()
        return LockPolicy.raises(self, ev, eng)


@check('B05', explanation='''Per-path effect accounting: on every path of the functions that write inode_blocks, the number of
references taken (+1 / new row with count 1) and given back (_deref_obj) has to match the change of the link, in the
required order; _deref_obj has exactly one of the effects "decrement" and "delete row"; a repository-wide scan shows
that no other function writes inode_blocks or objects.refcount.''')
def b05(ctx):
    ctx.rule('relink-balance', 'linking a block takes one reference on the new object before, and gives back the old one after, exactly once')
    ctx.rule('unlink-balance', 'deleting a block link gives back exactly one reference, after the link is gone')
    ctx.rule('deref-effect', 'giving back a reference decrements the count when other references remain and deletes the row otherwise')
    ctx.rule('copy-balance', 'copying block links takes references for exactly the copied links')
    ctx.rule('sole-writers', 'inode_blocks and objects.refcount are written only by the analysed functions')
    visited = set()
    runs = upload_runs(ctx)
    fi, eng, outs = runs['upload_if_dirty']
    visited |= eng.stats['functions']
    el = ('param', 'el', fi.qual)

    def viol(rule, o, msg, eng, fi):
        ctx.violate(rule, '%s: %s' % (fi.qual, msg), msg, fi.loc(), eng.describe_trace(o.st))

    for o in outs:
        if o.kind != 'return':
            continue
        tr = o.st.auto
        old = None
        links, plus, derefs = [], [], []
        oldrow = None
        norows = 0
        for i, e in enumerate(tr):
            if e[0] == 'select' and e[1] == 'inode_blocks':
                oldrow = e[7]
            elif e[0] == 'sql' and e[2] == 'inode_blocks':
                links.append((i, dict(e[4]).get('obj_id'), e[1]))
            elif e[0] == 'sql' and e[1] == 'insert' and e[2] == 'objects':
                plus.append((i, e[6]))
            elif e[0] == 'sql' and e[1] == 'update' and e[2] == 'objects' and any(c == 'refcount' for c, _ in e[4]):
                v = dict(e[4])['refcount']
                if v[1].replace(' ', '') not in ('refcount+1', '1+refcount'):
                    viol('relink-balance', o, 'linking changes a reference count by something other than +1', eng, fi)
                plus.append((i, dict(e[5]).get('id')))
            elif e[0] == 'sql' and e[1] in ('update', 'delete') and e[2] == 'objects':
                viol('relink-balance', o, 'linking a block modifies an object row in an unexpected way', eng, fi)
            elif e[0] == 'deref' and e[1] == 'call':
                derefs.append((i, e[2]))
        ctx.ok('relink-balance', 'path with %d link, %d +1, %d deref' % (len(links), len(plus), len(derefs)))
        del old, norows
        if not links:
            if plus or derefs:
                viol('relink-balance', o, 'reference counts change although the block keeps its object', eng, fi)
            continue
        if len(links) != 1:
            viol('relink-balance', o, 'the block is linked more than once', eng, fi)
            continue
        i, obj, kind = links[0]
        if len(plus) != 1 or plus[0][1] != obj:
            viol('relink-balance', o, 'linking a block does not take exactly one reference on the new object', eng, fi)
        if plus and any(x[0] == 'await' for x in tr[min(plus[0][0], i):max(plus[0][0], i)]):
            viol('relink-balance', o, 'another task can run between taking the reference and linking', eng, fi)
        if oldrow is None:
            if derefs:
                viol('relink-balance', o, 'a reference is given back although the block had no object', eng, fi)
        else:
            zero = o.st.truth(('true', oldrow))
            if len(derefs) != 1 and zero is not False:
                viol('relink-balance', o, 'the previous object is not given back exactly once', eng, fi)
            elif derefs:
                if derefs[0][1] != oldrow:
                    viol('relink-balance', o, 'the reference given back is not that of the previous object', eng, fi)
                if derefs[0][0] < i:
                    viol('relink-balance', o, 'the previous object is given back before the block refers to the new one', eng, fi)
    ctx.floor('relink-balance', 3)

    fi = ctx.repo.func(BC + '.remove')
    pol = RemovePolicy()
    pol.opaque = pol.opaque - {fi.short}
    eng, outs = ctx.run(fi, pol, OutcomeMonitor())
    visited |= eng.stats['functions']
    for o in outs:
        if o.kind != 'return':
            continue
        pend = {}
        row = None
        for e in o.st.auto:
            if e[0] == 'select' and e[1] == 'inode_blocks':
                row = (e[4], e[5], e[7])
            elif e[0] == 'sql' and e[2] == 'inode_blocks':
                w = dict(e[5])
                ctx.ok('unlink-balance', 'delete link')
                if e[1] != 'delete' or row is None or (w.get('inode'), w.get('blockno')) != row[:2]:
                    viol('unlink-balance', o, 'a block link is deleted without having looked up the object it refers to', eng, fi)
                else:
                    pend[row[2]] = pend.get(row[2], 0) + 1
            elif e[0] == 'deref' and e[1] == 'call':
                if pend.get(e[2], 0) != 1:
                    viol('unlink-balance', o, 'a reference is given back that does not belong to a deleted block link', eng, fi)
                else:
                    pend.pop(e[2])
            elif e[0] == 'sql' and e[2] == 'objects':
                viol('unlink-balance', o, 'object row changed directly', eng, fi)
        if pend:
            viol('unlink-balance', o, 'a block link is deleted without giving back its reference', eng, fi)
    ctx.floor('unlink-balance')

    # _deref_obj
    fi = ctx.repo.func(BC + '._deref_obj')
    pol = RemovePolicy()
    pol.opaque = pol.opaque - {fi.short}
    eng, outs = ctx.run(fi, pol, OutcomeMonitor())
    visited |= eng.stats['functions']
    oid = ('param', 'obj_id', fi.qual)
    for o in outs:
        if o.kind != 'return':
            continue
        row = next((e[7] for e in o.st.auto if e[0] == 'select' and e[1] == 'objects'), None)
        sel = next((e for e in o.st.auto if e[0] == 'select' and e[1] == 'objects'), None)
        dec = [e for e in o.st.auto if e[0] == 'sql' and e[1] == 'update' and e[2] == 'objects']
        dele = [e for e in o.st.auto if e[0] == 'sql' and e[1] == 'delete' and e[2] == 'objects']
        ctx.ok('deref-effect', 'dec=%d del=%d' % (len(dec), len(dele)))
        if len(dec) + len(dele) != 1:
            viol('deref-effect', o, 'giving back a reference does not change the object row exactly once', eng, fi)
            continue
        e = (dec + dele)[0]
        if dict(e[5]).get('id') != oid or (sel is not None and sel[6] != oid):
            viol('deref-effect', o, 'another object is modified', eng, fi)
        col = None
        if sel is not None:
            cols = [c[0] if len(c) == 1 else None for c in sel[2]]
            if 'refcount' in cols:
                col = ('item', row, const(cols.index('refcount'))) if len(cols) > 1 else row
        many = None
        if col is not None:
            many = o.st.truth(('lt', const(1), col))
            if many is None:
                many2 = o.st.truth(('lt', col, const(2)))
                many = None if many2 is None else not many2
            if many is None:
                eq1 = o.st.truth(('eq',) + tuple(sorted((col, const(1)), key=repr)))
                many = None if eq1 is None else not eq1
        if dec:
            v = dict(dec[0][4]).get('refcount')
            if v is None or v[1].replace(' ', '') != 'refcount-1':
                viol('deref-effect', o, 'the count is not decremented by one', eng, fi)
            if many is not True:
                viol('deref-effect', o, 'the count is decremented although this may be the last reference', eng, fi)
        elif many is not False:
            viol('deref-effect', o, 'the object row is deleted although other references may remain', eng, fi)
    ctx.floor('deref-effect', 2)

    from . import cache2
    ctx.rule('remove-complete', 'removing blocks deals with every one of them: cache entry and link')
    cache2.remove_complete(ctx, 'remove-complete')
    copy_balance(ctx, visited)
    # writers
    for mod in ctx.repo.modules.values():
        if mod.name in ('s3ql.fsck',):
            continue
        for fn in list(mod.functions.values()) + [x for c in mod.classes.values() for x in c.methods.values()]:
            for n in ast.walk(fn.node):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.match(
                        r'\s*(INSERT|REPLACE|UPDATE|DELETE)\b', n.value, re.I):
                    from sa.sqlp import parse
                    s = parse(n.value)
                    if s.table == 'inode_blocks' or s.table == 'objects':
                        if s.table == 'objects' and s.kind == 'update' and 'refcount' not in s.cols:
                            continue
                        ctx.ok('sole-writers', fn.short)
                        if fn.qual not in visited:
                            ctx.violate('sole-writers', '%s writes %s' % (fn.qual, s.table),
                                        'block links or object counts are written outside the analysed functions', fn.loc(n))
    ctx.floor('sole-writers', 3)


class CopyMonitor(Monitor):
    def keep(self, ev, st, eng):
        sq = sql_of(ev) if ev.kind == 'ret' else None
        if sq is None:
            if ev.kind == 'await':
                return ('await', ev.name)
            return None
        s = sq.stmt
        if s.table in ('inode_blocks', 'objects') and s.kind in ('insert', 'replace', 'update', 'delete'):
            return ('sql', s.kind, s.table, s.or_, s.text, tuple(sq.params or ()))
        return None


class CopyPolicy(StdPolicy):
    inline_modules = frozenset()
    await_raises = False
    os_raises = False
    max_states = 60


def copy_balance(ctx, visited):
    '''Every path of copy_tree: INSERT inode_blocks SELECT .. FROM inode_blocks WHERE inode=src is paired with a
    refcount+COUNT over the same source (or the new inode) before the next await.'''
    from sa.sqlp import parse

    fi = ctx.repo.func('fs.Operations.copy_tree')
    eng, outs = ctx.run(fi, CopyPolicy(), CopyMonitor())
    visited |= eng.stats['functions']
    for o in outs:
        if o.kind != 'return':
            continue
        pend = {}
        for e in o.st.auto:
            if e[0] == 'await':
                if any(v != 0 for v in pend.values()):
                    ctx.violate('copy-balance', '%s await' % fi.qual, 'another task can run between copying block links and counting them',
                                fi.loc(), eng.describe_trace(o.st))
                continue
            s = parse(e[4])
            if s.table == 'inode_blocks':
                ok = s.kind == 'insert' and s.subselect and s.or_ is None and s.cols.get('obj_id') == ['obj_id'] and \
                    s.cols.get('blockno') == ['blockno'] and 'inode_blocks' in s.tables and len(e[5]) == 2
                if not ok:
                    ctx.violate('copy-balance', '%s links' % fi.qual, 'block links are not copied one to one', fi.loc(), eng.describe_trace(o.st))
                    continue
                src = e[5][1]
                dst = e[5][0]
                pend[('b', src, dst)] = pend.get(('b', src, dst), 0) + 1
                ctx.ok('copy-balance', 'copy of links')
            else:
                t = re.sub(r'\s+', '', s.text.lower())
                ok = 'refcount+count(' in t and 'inode_blocks' in s.tables and 'groupby' in t
                if not ok and s.kind == 'update':
                    ok = 'count(' in t and 'inode_blocks' in s.tables
                src = e[5][0] if e[5] else None
                k = next((k for k, v in pend.items() if v > 0 and src in k[1:]), None)
                if not ok or k is None:
                    ctx.violate('copy-balance', '%s counts' % fi.qual,
                                'reference counts of copied blocks are not increased by the number of copied links', fi.loc(),
                                eng.describe_trace(o.st))
                else:
                    # counting over the destination is only right after the copy
                    pend[k] -= 1
        if any(v != 0 for v in pend.values()):
            ctx.violate('copy-balance', '%s unbalanced' % fi.qual, 'block links are copied without increasing the reference counts',
                        fi.loc(), eng.describe_trace(o.st))
    ctx.floor('copy-balance')


# -------------------------------------------------------------------------------------------
# B06


class RemovalMonitor(Monitor):
    def keep(self, ev, st, eng):
        if ev.kind in ('call', 'ret') and ev.name in ('delete_multi', 'delete') and recv_attr(ev, 'backend'):
            return ('delete', ev.kind, ev.args[0])
        if ev.kind == 'handler':
            return ('handler', ev.name)
        if ev.kind == 'setattr' and ev.name == 'failsafe':
            return ('failsafe', ev.res)
        return None


class RemovalPolicy(StdPolicy):
    inline_modules = {'s3ql.block_cache'}
    keyerrors = ()

    def raises(self, ev, eng):
        if ev.name == 'delete_multi':
            return ('s3ql.backends.common.NoSuchObject', 's3ql.backends.common.CorruptedObjectError')
        if ev.name == 'receive_nowait':
            return ('trio.WouldBlock',)
        return ()


@check('B06', explanation='''Must-precede analysis of _deref_obj: queuing an object for removal requires, on the same path, that
its row has been deleted, that an upload of it is known not to be in flight (waited for), and that it is known to have
been stored; the removal task turns a missing object into damage; a who-may-call scan shows that data objects are
deleted nowhere else except by fsck for objects without a row.''')
def b06(ctx):
    ctx.rule('delete-after-row', 'an object is queued for removal only after its row was deleted on the same path')
    ctx.rule('not-in-flight', 'an object is queued for removal only when no upload of it is in flight')
    ctx.rule('not-failed', 'an object that was never stored is not deleted from the backend')
    ctx.rule('missing-is-damage', 'a missing object during removal sets failsafe')
    ctx.rule('sole-deleter', 'data objects are deleted only by the removal task and by fsck (for objects unknown to the metadata)')
    fi = ctx.repo.func(BC + '._deref_obj')
    pol = RemovePolicy()
    pol.opaque = pol.opaque - {fi.short}
    eng, outs = ctx.run(fi, pol, OutcomeMonitor())
    oid = ('param', 'obj_id', fi.qual)
    for o in outs:
        row = None
        deleted = None
        for i, e in enumerate(o.st.auto):
            if e[0] == 'select' and e[1] == 'objects':
                row = e
            elif e[0] == 'sql' and e[1] == 'delete' and e[2] == 'objects' and dict(e[5]).get('id') == oid:
                deleted = i
            elif e[0] == 'send_remove' and e[1] == 'call':
                ctx.ok('delete-after-row')
                if deleted is None or e[2] != oid:
                    ctx.violate('delete-after-row', fi.qual, 'an object is queued for removal although its row still exists',
                                fi.loc(), eng.describe_trace(o.st))
                size = None
                if row is not None:
                    cols = [c[0] if len(c) == 1 else None for c in row[2]]
                    if 'phys_size' in cols:
                        size = ('item', row[7], const(cols.index('phys_size'))) if len(cols) > 1 else row[7]
                stored = None
                if size is not None:
                    r = o.st.truth(('eq',) + tuple(sorted((size, const(-1)), key=repr)))
                    stored = None if r is None else not r
                    if stored is None:
                        r = o.st.truth(('lt', size, const(0)))
                        stored = None if r is None else not r
                ctx.ok('not-failed')
                if not stored:
                    ctx.violate('not-failed', fi.qual, 'an object that may never have been stored is queued for removal', fi.loc(),
                                eng.describe_trace(o.st))
        if o.kind == 'return' and deleted is not None and not any(e[0] == 'send_remove' for e in o.st.auto):
            # dropped without removal: only for objects never stored
            if row is not None:
                cols = [c[0] if len(c) == 1 else None for c in row[2]]
                size = ('item', row[7], const(cols.index('phys_size'))) if 'phys_size' in cols and len(cols) > 1 else None
                if size is None or (o.st.truth(('eq',) + tuple(sorted((size, const(-1)), key=repr))) is not True and
                                    o.st.truth(('lt', size, const(0))) is not True):
                    ctx.violate('delete-after-row', fi.qual + ' forgets', 'the row of a stored object is deleted without queuing the '
                                'object for removal', fi.loc(), eng.describe_trace(o.st))
    in_flight_wait(ctx, 'not-in-flight', '_deref_obj')
    ctx.floor('delete-after-row')
    fi = ctx.repo.func(BC + '._removal_task')
    eng, outs = ctx.run(fi, RemovalPolicy(), RemovalMonitor())
    for o in outs:
        tr = o.st.auto
        for i, e in enumerate(tr):
            if e[0] == 'delete' and e[1] == 'call':
                failed = not (i + 1 < len(tr) and tr[i + 1][0] == 'delete' and tr[i + 1][1] == 'ret')
                if failed:
                    ctx.ok('missing-is-damage', 'delete fails')
                    rest = tr[i + 1:]
                    propagates = o.kind == 'raise' and not any(x[0] == 'delete' for x in rest)
                    nxt = next((j for j, x in enumerate(rest) if x[0] == 'delete'), len(rest))
                    if not propagates and ('failsafe', TRUE) not in rest[:nxt]:
                        ctx.violate('missing-is-damage', fi.qual, 'a failed removal is ignored', fi.loc(), eng.describe_trace(o.st))
    ctx.floor('missing-is-damage')
    # who deletes
    ok_del = {'s3ql.block_cache.BlockCache._removal_task', 's3ql.fsck.Fsck.check_objects_id',
              's3ql.fsck.Fsck.check_objects_refcount'}
    helpers = known_helpers(eng.stats['functions'])
    for mod in ctx.repo.modules.values():
        if mod.name.startswith(('s3ql.backends', 'contrib')):
            continue
        for fn in list(mod.functions.values()) + [x for c in mod.classes.values() for x in c.methods.values()]:
            for n in walk_own(fn.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('delete', 'delete_multi') \
                        and ((isinstance(n.func.value, ast.Attribute) and n.func.value.attr in ('backend',)) or
                             (isinstance(n.func.value, ast.Name) and n.func.value.id in ('backend',))):
                    txt = ' '.join(str(c.value) for c in ast.walk(fn.node) if isinstance(c, ast.Constant) and isinstance(c.value, str))
                    ctx.ok('sole-deleter', fn.short)
                    if fn.qual in ok_del or fn.qual in helpers:
                        continue
                    if fn.qual.startswith('s3ql.adm.clear') or fn.name in ('clear',):
                        continue
                    if fn.mod.name == 's3ql.database' and 's3ql_data' not in txt:
                        continue
                    if fn.qual not in known_functions() and fn.mod.name in ('s3ql.fsck', 's3ql.database'):
                        continue
                    ctx.violate('sole-deleter', '%s deletes' % fn.qual, 'objects are deleted from the backend here', fn.loc(n))
    ctx.floor('sole-deleter', 2)


# -------------------------------------------------------------------------------------------
# B07


class DownloadMonitor(Monitor):
    def keep(self, ev, st, eng):
        if ev.kind in ('call', 'ret') and ev.qual == 'builtins.open':
            return ('open', ev.kind, ev.args[0], ev.arg(1, 'mode'), ev.res)
        if ev.kind in ('call', 'ret') and ev.name in ('readinto_fh',):
            nonnull = [repr(a[1]) for a, v in st.facts.items() if a[0] == 'isnone' and v is False and a[1][0] == 'item']
            nonnull += [repr(a[1]) for a, v in st.facts.items() if a[0] == 'true' and v is True and a[1][0] == 'item']
            return ('download', ev.kind, ev.args[1], tuple(sorted(set(nonnull))))
        if ev.kind in ('call', 'ret') and ev.name in ('fsync', 'fdatasync'):
            return ('fsync', ev.kind, ev.args[0])
        if ev.kind == 'call' and ev.name == 'flush' and ev.recv is not None:
            return ('flush', ev.recv)
        if ev.kind in ('call', 'ret') and ev.qual in ('os.rename', 'os.replace', 'shutil.move'):
            return ('rename', ev.kind, ev.args[0], ev.args[1])
        if ev.kind in ('call',) and ev.qual in ('os.unlink', 'os.remove'):
            return ('unlink', ev.args[0])
        if ev.kind == 'call' and ev.name == 'CacheEntry':
            return ('entry', ev.arg(2, 'filename'), ev.arg(3, 'mode', const('w+b')), ev.res)
        if ev.kind == 'setitem' and is_attr(ev.recv, 'cache'):
            return ('insert', ev.args[0], ev.args[1])
        if ev.kind == 'handler':
            return ('handler', ev.name)
        if ev.kind == 'setattr' and ev.name == 'failsafe':
            return ('failsafe', ev.res)
        if ev.kind == 'setattr' and ev.name == 'size' and is_attr(ev.recv, 'cache'):
            return ('size', ev.extra)
        if ev.kind == 'await':
            return ('await', ev.name)
        sq = sql_of(ev) if ev.kind == 'ret' else None
        if sq is not None:
            return ('row', ev.res, tuple(c[-1] if c else None for c in sq.stmt.select))
        return None


def hash_index(tr):
    '''Index of the hash column in the last row selected in the trace.'''
    for e in reversed(tr):
        if e[0] == 'row':
            for i, c in enumerate(e[2]):
                if isinstance(c, str) and c.rpartition('.')[2] == 'hash':
                    return i
    return -1


class DownloadPolicy(LockPolicy):
    def raises(self, ev, eng):
        if ev.name == 'CacheEntry':
            return ()
        if ev.name in ('unlink',):
            return ()
        return LockPolicy.raises(self, ev, eng)


@check('B07', explanation='''Ordering analysis of the cache miss path: on every path the final file name and the cache entry
appear only after download, flush, fsync and rename of a temporary file whose name the cache loader does not
recognise; on every exceptional path after the temporary file was opened it is removed and no entry is created; a block
with an upload in flight waits for it; an object without hash puts the file system in failsafe mode.''')
def b07(ctx):
    ctx.rule('publish-order', 'download -> flush -> fsync -> rename -> cache entry')
    ctx.rule('tmp-cleanup', 'on failure the temporary file is removed and no cache entry exists')
    ctx.rule('tmp-name', 'the temporary name is not accepted by load_cache')
    ctx.rule('in-flight-wait', 'an object whose upload is in flight is not downloaded before that upload finished')
    ctx.rule('null-hash', 'an object that was never stored puts the file system into failsafe mode')
    fi = ctx.repo.func(BC + '._get_entry')
    pol = DownloadPolicy()
    pol.opaque = pol.opaque - {fi.short} | {'CacheEntry.__init__'}
    eng, outs = ctx.run(fi, pol, DownloadMonitor())

    def viol(rule, o, msg):
        ctx.violate(rule, '%s: %s' % (fi.qual, msg), msg, fi.loc(), eng.describe_trace(o.st))

    pats = load_patterns(ctx)
    for o in outs:
        tr = o.st.auto
        tmp = None
        stage = 0
        row = None
        removed = False
        inserted = False
        for e in tr:
            if e[0] == 'row':
                row = e[1]
            elif e[0] == 'open' and e[1] == 'ret':
                tmp = (e[2], e[4])
                stage = 1
                ctx.ok('tmp-name', show(e[2]))
                tail = suffix_of(e[2])
                if tail is None or any(p.match('1-1' + tail) for p in pats):
                    viol('tmp-name', o, 'a partial download is stored under a name that is loaded as a complete block')
            elif e[0] == 'download' and e[1] == 'ret':
                stage = 2 if stage >= 1 else 0
                flushed = False
            elif e[0] == 'flush' and stage == 2:
                stage = 3
            elif e[0] == 'fsync' and e[1] == 'ret' and stage >= 3:
                stage = 4
            elif e[0] == 'rename' and e[1] == 'call':
                ctx.ok('publish-order', 'rename')
                if stage < 4:
                    viol('publish-order', o, 'the downloaded file gets its final name before it is complete and synced to disk')
            elif e[0] == 'rename' and e[1] == 'ret':
                stage = 5
            elif e[0] == 'unlink':
                removed = True
            elif e[0] == 'entry':
                ctx.ok('publish-order', 'entry')
                if row is not None:
                    if stage < 5:
                        viol('publish-order', o, 'a cache entry is created for a block that has not been downloaded completely')
                    if not (is_const(e[2]) and e[2][1].startswith('r')):
                        viol('publish-order', o, 'the downloaded data is truncated when the entry is created')
                elif not (is_const(e[2]) and e[2][1].startswith('w')):
                    viol('publish-order', o, 'a new block may pick up stale data')
            elif e[0] == 'insert':
                inserted = True
        if o.kind == 'raise' and tmp is not None:
            ctx.ok('tmp-cleanup', 'failing path')
            if stage < 5 and not removed:
                viol('tmp-cleanup', o, 'a failed download leaves its temporary file behind')
            if inserted:
                viol('tmp-cleanup', o, 'a failed download leaves a cache entry')
        if row is not None and any(e[0] == 'download' for e in tr):
            ctx.ok('null-hash', 'download path')
            di = next(i for i, e in enumerate(tr) if e[0] == 'download')
            known = ('item', row, const(hash_index(tr[:di])))
            if repr(known) not in tr[di][3] and ('failsafe', TRUE) not in tr[:di]:
                viol('null-hash', o, 'an object without hash is used without putting the file system into failsafe mode')
    loaded(ctx)
    in_flight_wait(ctx, 'in-flight-wait', '_get_entry')
    for r in ('publish-order', 'tmp-cleanup', 'tmp-name', 'null-hash'):
        ctx.floor(r)


def loaded(ctx):
    '''Files found in the cache keep their contents and belong to the block that their name says.'''
    ctx.rule('loaded', 'files found in the cache are used as they are, for the block in their name')
    fi = ctx.repo.func(BC + '.load_cache')

    class M(Monitor):
        def keep(self, ev, st, eng):
            if ev.kind == 'call' and ev.name == 'CacheEntry':
                return ('entry', tuple(ev.args[:2]), ev.arg(3, 'mode', const('w+b')), ev.res)
            if ev.kind == 'setitem' and is_attr(ev.recv, 'cache'):
                return ('insert', ev.args[0])
            return None

    pol = DownloadPolicy()
    pol.opaque = pol.opaque - {fi.short} | {'CacheEntry.__init__'}
    eng, outs = ctx.run(fi, pol, M())
    for o in outs:
        prev = None
        for e in o.st.auto:
            bad = None
            if e[0] == 'entry':
                ctx.ok('loaded', fi.short)
                prev = e
                if is_const(e[2]) and str(e[2][1]).startswith('w'):
                    bad = 'empties the files that are in the cache'
                got = [[u[3][-1][1] for u in subterms(a) if u[0] == 'res' and u[1].endswith('.group') and u[3] and is_const(u[3][-1])] for a in e[1]]
                if got in ([[2], [1]], [[1], [1]], [[2], [2]]):
                    bad = 'confuses the parts of the names of cache files'
            elif e[0] == 'insert' and prev is not None:
                if e[1][0] == 'tuple' and len(prev[1]) == 2 and e[1][1:] != prev[1]:
                    bad = 'puts a block into the cache under another key'
            if bad:
                ctx.violate('loaded', '%s: %s' % (fi.qual, bad), '%s %s' % (fi.short, bad), fi.loc(), eng.describe_trace(o.st))
    ctx.floor('loaded')


def suffix_of(t):
    if t[0] == 'fmt' and t[1].startswith('{}'):
        i = t[1].rindex('}')
        return t[1][i + 1:]
    return None


def load_patterns(ctx):
    pats = []
    fi = ctx.repo.func(BC + '.load_cache')
    for n in walk_own(fi.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('match', 'fullmatch', 'compile'):
            for a in n.args[:1]:
                if isinstance(a, ast.Constant) and isinstance(a.value, str):
                    pats.append(re.compile(a.value if n.func.attr != 'fullmatch' else '(?:%s)$' % a.value))
    if not pats:
        for v in fi.mod.assigns.values():
            for a in ast.walk(v):
                if isinstance(a, ast.Constant) and isinstance(a.value, str) and '\\d' in a.value:
                    pats.append(re.compile(a.value))
    if not pats:
        raise AnalysisError('cannot find the file name pattern in load_cache')
    return pats


# -------------------------------------------------------------------------------------------
# B08


class SizeMonitor(Monitor):
    def keep(self, ev, st, eng):
        if ev.kind == 'setattr' and ev.name == 'size' and (is_attr(ev.recv, 'cache') or (
                ev.recv[0] == 'self' and ev.recv[1].endswith('CacheDict'))):
            return ('size', ev.extra, ev.res)
        if ev.kind == 'call' and ev.name == 'pop' and ev.recv[0] == 'self':
            return ('pop', ev.args[0], ev.res)
        if ev.kind == 'delitem' and ev.recv[0] == 'self':
            return ('pop', ev.args[0], None)
        if ev.kind == 'call' and ev.name == 'unlink':
            return ('unlink', ev.recv)
        if ev.kind == 'call' and ev.name == 'CacheEntry':
            return ('entry', ev.arg(3, 'mode', const('w+b')), ev.res)
        if ev.kind == 'setitem' and is_attr(ev.recv, 'cache'):
            return ('insert', ev.args[0], ev.args[1])
        if ev.kind == 'ret' and ev.name == '_get_entry':
            return ('get_entry', ev.res)
        if ev.kind == 'call' and ev.name == 'evict':
            return ('evict',)
        if ev.kind == 'ret' and ev.name == 'acquire' and is_lock(eng, ev):
            return ('acquire',)
        if ev.kind == 'ret' and ev.name == 'is_full':
            return ('is_full', ev.res)
        if ev.kind == 'yield':
            small = None
            for a, v in st.facts.items():
                if a[0] == 'lt' and is_attr(a[2], 'size') and a[1][0] == 'param' and a[1][1] == 'max_write':
                    small = v
            return ('yield', ev.res, small)
        return None


class SizePolicy(LockPolicy):
    opaque = LockPolicy.opaque | {'CacheDict.is_full', 'CacheEntry.__init__', 'CacheEntry.unlink', 'CacheEntry.close'}


@check('B08', explanation='''Effect accounting for CacheDict.size: on every path an entry that enters with data adds its size once, an
entry that leaves subtracts it once, the slow path of get() adds exactly the growth observed around the caller's use on
every exit, and the fast path only hands out entries that cannot grow; callers honour the max_write promise; the
limit check precedes every possible insertion.''')
def b08(ctx):
    ctx.rule('remove-accounting', 'removing an entry subtracts its size exactly once')
    ctx.rule('insert-accounting', 'an entry that is added with existing data adds its size exactly once')
    ctx.rule('use-accounting', 'get() adds the size change of the entry exactly once on every exit of the caller')
    ctx.rule('fast-path', 'the unaccounted fast path hands out only entries the caller cannot grow; callers neither truncate nor exceed max_write')
    ctx.rule('limit', 'the cache limit is enforced before an entry may be added')
    ctx.rule('size-owner', 'the cache size is changed only by the analysed functions')
    visited = set()
    cd = ctx.repo.func('block_cache.CacheDict.remove')
    pol = SizePolicy()
    pol.opaque = pol.opaque - {'CacheDict.remove'}
    eng, outs = ctx.run(cd, pol, SizeMonitor())
    visited |= eng.stats['functions']
    for o in outs:
        if o.kind != 'return':
            continue
        ctx.ok('remove-accounting', 'CacheDict.remove path')
        pops = [e for e in o.st.auto if e[0] == 'pop']
        sz = [e for e in o.st.auto if e[0] == 'size']
        ok = len(pops) == 1 and len(sz) == 1 and size_delta(sz[0]) is not None
        if ok:
            sign, t = size_delta(sz[0])
            ok = sign == -1 and is_attr(t, 'size') and (pops[0][2] is None or t[1] == pops[0][2])
        if not ok:
            ctx.violate('remove-accounting', cd.qual, 'removing an entry does not subtract its size exactly once', cd.loc(),
                        eng.describe_trace(o.st))
    # get
    fi = ctx.repo.func(BC + '.get')
    pol = SizePolicy()
    pol.opaque = pol.opaque - {fi.short}
    eng, outs = run_cm(ctx, fi, pol, SizeMonitor())
    visited |= eng.stats['functions']

    def viol(rule, o, msg, eng=eng, fi=fi):
        ctx.violate(rule, '%s: %s' % (fi.qual, msg), msg, fi.loc(), eng.describe_trace(o.st))

    for o in outs:
        tr = o.st.auto
        ys = [i for i, e in enumerate(tr) if e[0] == 'yield']
        sizes = [(i, e) for i, e in enumerate(tr) if e[0] == 'size']
        if len(ys) > 1:
            viol('use-accounting', o, 'the entry is handed out twice')
            continue
        if not ys:
            if sizes:
                viol('use-accounting', o, 'the cache size changes although nothing was used')
            continue
        y = ys[0]
        got = [e for e in tr[:y] if e[0] == 'get_entry']
        if not got:
            ctx.ok('fast-path', 'fast path')
            if sizes:
                viol('use-accounting', o, 'fast path changes the size')
            if tr[y][2] is not True:
                viol('fast-path', o, 'the fast path hands out an entry that may grow')
            continue
        ctx.ok('use-accounting', 'slow path, caller %s' % o.kind)
        el = got[-1][1]
        good = len(sizes) == 1 and sizes[0][0] > y
        if good:
            d = size_delta(sizes[0][1])
            good = d is not None and d[0] == 1 and d[1][0] == 'pure' and d[1][1] == 'Sub' and all(
                is_attr(x, 'size') and x[1] == el for x in d[1][2])
        if not good:
            viol('use-accounting', o, 'the size change of the block is not accounted exactly once')
        ctx.ok('limit', 'slow path')
        lim = False
        for e in tr[:y]:
            if e[0] == 'evict':
                lim = True
            if e[0] == 'is_full' and o.st.truth(('true', e[1])) is False:
                lim = True
        if not lim:
            viol('limit', o, 'a block is added without checking the cache limit')
    # the old size must be read after the entry is known and before it is handed out
    old_size_read(ctx, fi)
    # _get_entry and load_cache
    for name in ('_get_entry', 'load_cache'):
        fi2 = ctx.repo.func('%s.%s' % (BC, name))
        pol = SizePolicy()
        pol.opaque = pol.opaque - {fi2.short}
        eng2, outs2 = ctx.run(fi2, pol, SizeMonitor())
        visited |= eng2.stats['functions']
        for o in outs2:
            if o.kind != 'return':
                continue
            modes = {}
            need = []
            got = []
            for e in o.st.auto:
                if e[0] == 'entry':
                    modes[e[2]] = e[1]
                elif e[0] == 'insert':
                    ctx.ok('insert-accounting', fi2.short)
                    m = modes.get(e[2])
                    if m is None or not (is_const(m) and m[1].startswith('w')):
                        need.append(e[2])
                elif e[0] == 'size':
                    d = size_delta(e)
                    if d is None or d[0] != 1 or not is_attr(d[1], 'size'):
                        viol('insert-accounting', o, 'unexpected change of the cache size', eng2, fi2)
                    else:
                        got.append(d[1][1])
            if sorted(map(repr, need)) != sorted(map(repr, [g for g in got if not (modes.get(g) and modes[g][1].startswith('w'))])):
                viol('insert-accounting', o, 'a block entering the cache with data is not added to the size exactly once', eng2, fi2)
    for mod in ctx.repo.modules.values():
        for fn in list(mod.functions.values()) + [x for c in mod.classes.values() for x in c.methods.values()]:
            for n in walk_own(fn.node):
                if isinstance(n, ast.Attribute) and n.attr == 'size' and isinstance(n.ctx, ast.Store):
                    v = n.value
                    isc = isinstance(v, ast.Attribute) and v.attr == 'cache'
                    iscd = isinstance(v, ast.Name) and v.id == 'self' and fn.cls is not None and fn.cls.name == 'CacheDict'
                    if (isc and mod.name in ('s3ql.block_cache', 's3ql.fs', 's3ql.mount')) or iscd:
                        ctx.ok('size-owner', fn.short)
                        if fn.qual not in visited and fn.name != '__init__':
                            ctx.violate('size-owner', '%s sets size' % fn.qual, 'cache size changed outside the analysed functions', fn.loc(n))
    is_full(ctx)
    from . import cache2
    cache2.limit_loops(ctx, 'limit')
    callers_max_write(ctx)
    entry_sizes(ctx)
    for r in ('remove-accounting', 'insert-accounting', 'use-accounting', 'fast-path', 'limit', 'size-owner'):
        ctx.floor(r)


def size_delta(e):
    '''(sign, amount) of a ('size', aug, value) event.'''
    aug, val = e[1], e[2]
    if aug is not None:
        return ({'Add': 1, 'Sub': -1}.get(aug[0]), aug[1]) if aug[0] in ('Add', 'Sub') else None
    if val[0] == 'pure' and val[1] == 'Add' and len(val[2]) == 2:
        a, b = val[2]
        if is_attr(a, 'size') and (is_attr(a[1], 'cache') or a[1][0] == 'self'):
            return (1, b)
        if is_attr(b, 'size') and (is_attr(b[1], 'cache') or b[1][0] == 'self'):
            return (1, a)
    if val[0] == 'pure' and val[1] == 'Sub' and is_attr(val[2][0], 'size'):
        return (-1, val[2][1])
    return None


def old_size_read(ctx, fi):
    '''In get(), the value subtracted is read between _get_entry() and the yield, the other one after it.'''
    class P(SizePolicy):
        epochs = True

    class M(SizeMonitor):
        pass

    pol = P()
    pol.opaque = pol.opaque - {fi.short}
    eng, outs = run_cm_epochs(ctx, fi, pol, M())
    for o in outs:
        for e in o.st.auto:
            if e[0] == 'size':
                d = size_delta(e)
                if d is None or d[1][0] != 'pure' or d[1][1] != 'Sub':
                    continue
                new, old = d[1][2]
                e_new = new[3] if len(new) > 3 else 0
                e_old = old[3] if len(old) > 3 else 0
                if e_new == e_old:
                    ctx.violate('use-accounting', fi.qual + ': same read', 'old and new size of the block are read at the same time',
                                fi.loc(), eng.describe_trace(o.st))


def run_cm_epochs(ctx, fi, pol, mon):
    from sa.interp import Engine, Outcome

    eng = Engine(ctx.repo, pol, mon)
    orig = eng.e_Yield

    def e_yield(node, st):
        if eng.fi.node is not fi.node:
            return orig(node, st)
        res = []
        vals = eng.ev(node.value, st) if node.value is not None else [(st, NONE)]
        for s, v in vals:
            s = s.copy()
            eng.emit(s, Event('yield', node, fi, args=(v,), res=v))
            eng.clobber(s, eng.nid(node, 'body'))
            res.append((s, NONE))
        return res

    eng.e_Yield = e_yield
    outs = eng.run(fi)
    ctx.absorb(eng, len(outs))
    return eng, outs


def is_full(ctx):
    '''is_full() is true whenever the size or the number of entries exceeds its limit.'''
    fi = ctx.repo.func('block_cache.CacheDict.is_full')
    eng, outs = ctx.run(fi, StdPolicy(), Monitor())
    from sa.interp import Outcome
    bad = False
    for o in outs:
        # resolve the returned condition
        for s, b in eng.truthy(o.val, o.st):
            if b:
                continue
            size_ok = cnt_ok = False
            for a, v in s.facts.items():
                if a[0] == 'lt' and is_attr(a[1], 'max_size') and is_attr(a[2], 'size') and v is False:
                    size_ok = True
                if a[0] == 'lt' and is_attr(a[1], 'size') and is_attr(a[2], 'max_size') and v is True:
                    size_ok = True
                if a[0] == 'lt' and is_attr(a[1], 'max_entries') and v is False:
                    cnt_ok = True
                if a[0] == 'lt' and is_attr(a[2], 'max_entries') and v is True:
                    cnt_ok = True
            if not (size_ok and cnt_ok):
                bad = True
    ctx.ok('limit', 'CacheDict.is_full')
    if bad or not outs:
        ctx.violate('limit', fi.qual, 'the cache is reported as not full although a limit may be exceeded', fi.loc())


class CallerMonitor(Monitor):
    '''Bodies of `with cache.get(.., max_write=X)`: no truncate; writes end at or before X.'''

    def __init__(self, ctx):
        self.ctx = ctx

    def init(self):
        return ()

    def step(self, auto, ev, st, eng):
        d = dict(auto)
        if ev.kind == 'call' and ev.name == 'get' and ev.target is not None and ev.target.qual.endswith('BlockCache.get'):
            mw = ev.arg(2, 'max_write', NONE)
            d[ev.res] = ('max', mw)
        elif ev.kind == 'call' and ev.recv in d and ev.name in ('seek', 'write', 'truncate'):
            mw = d[ev.recv]
            mwv = mw[1]
            none = st.truth(('isnone', mwv))
            self.ctx.ok('fast-path', 'CacheEntry.%s in %s' % (ev.name, ev.fi.short))
            if ev.name == 'seek':
                d[ev.recv] = ('max', mwv, ev.args[0])
            elif none is not True:
                off = mw[2] if len(mw) > 2 else None
                if ev.name == 'truncate':
                    self.bad(ev, st, eng, 'a block obtained with max_write is truncated without accounting')
                else:
                    ds = [lin_diff(mwv, ('pure', 'Add', (off, ln))) for ln in len_bounds(ev.args[0])] if off is not None else []
                    if not any(x is not None and x >= -1 for x in ds):
                        self.bad(ev, st, eng, 'a block obtained with max_write=%s is written to beyond it' % show(mwv))
        else:
            return auto
        return tuple(sorted(d.items(), key=repr))

    def bad(self, ev, st, eng, msg):
        self.ctx.violate('fast-path', '%s: %s' % (ev.fi.qual, ev.name), msg, ev.loc, eng.describe_trace(st))


def callers_max_write(ctx):
    for fn in handle_users(ctx):
        ctx.run(fn, StdPolicy(opaque=frozenset({'BlockCache.get'}), os_raises=False, await_raises=False), CallerMonitor(ctx))


def entry_sizes(ctx):
    '''CacheEntry.size follows the file: truncate(size) -> size, truncate() -> pos, write -> max(pos, size).'''
    ctx.rule('entry-size', 'CacheEntry.size is updated by every method that changes the file')
    for name in ('write', 'truncate'):
        fi = ctx.repo.func('block_cache.CacheEntry.' + name)

        class M(Monitor):
            def keep(self, ev, st, eng):
                if ev.kind == 'setattr' and ev.name == 'size':
                    return ('size', ev.res)
                if ev.kind == 'call' and ev.name in ('write', 'truncate', 'pwrite', 'ftruncate'):
                    return ('file', ev.name)
                return None

        eng, outs = ctx.run(fi, StdPolicy(), M())
        for o in outs:
            if o.kind != 'return':
                continue
            ctx.ok('entry-size', fi.short)
            if o.st.auto and o.st.auto[-1][0] == 'file' or not o.st.auto and name == 'truncate':
                # legal if the size provably does not change
                ok = False
                for a, v in o.st.facts.items():
                    if a[0] == 'lt' and (is_attr(a[1], 'size') or is_attr(a[2], 'size')):
                        ok = True
                if not ok:
                    ctx.violate('entry-size', fi.qual, 'the recorded size of the block is not updated', fi.loc())
    entry_position(ctx)
    ctx.floor('entry-size', 2)


def outside_results(t):
    '''Subterms that are not arguments of a call.'''
    if isinstance(t, tuple):
        yield t
        if t[:1] != ('res',):
            for x in t:
                yield from outside_results(x)


def entry_position(ctx):
    '''The size and position remembered for a cache file are those of the file.'''
    ctx.rule('entry-position', 'the remembered position and size of a cache file are those of the file')
    methods = ctx.repo.cls('block_cache.CacheEntry').methods

    class M(Monitor):
        def keep(self, ev, st, eng):
            if ev.kind == 'setattr' and ev.name in ('size', 'pos') and ev.recv[0] == 'self':
                return (ev.name, ev.res)
            if ev.kind == 'ret' and ev.name in ('write', 'truncate', 'seek', 'read') and is_attr(ev.recv, 'fh'):
                return ('file', ev.name, tuple(ev.args), ev.res)
            return None

    for name in ('write', 'truncate', 'read', 'seek'):
        fi = methods.get(name)
        if fi is None:
            continue
        par = [('param', a.arg, fi.qual) for a in fi.node.args.args[1:]]
        eng, outs = ctx.run(fi, StdPolicy(), M())
        for o in outs:
            if o.kind != 'return':
                continue
            tr = o.st.auto
            facts = o.st.facts
            bad = None
            last_file = max((i for i, e in enumerate(tr) if e[0] == 'file'), default=None)
            pos = next((e[1] for e in reversed(tr) if e[0] == 'pos'), None)
            size = next((e[1] for e in reversed(tr) if e[0] == 'size'), None)
            after = [e[0] for e in tr[last_file:]] if last_file is not None else []
            if name in ('write', 'read') and last_file is not None:
                parts = list(outside_results(pos)) if pos is not None else []
                if 'pos' not in after:
                    bad = 'does not remember the new position'
                elif name == 'read' and any(u in par for u in parts):
                    bad = 'does not advance by the amount that was read'
                elif name == 'write' and size is not None and size == pos and not any(
                        a[0] in ('lt', 'le') and any(is_attr(u, 'size') for u in subterms(a)) for a in facts):
                    bad = 'forgets the data behind the position'
            elif name == 'truncate' and last_file is not None and size is not None and par:
                none = facts.get(('isnone', par[0]))
                parts = list(outside_results(size))
                if none is False and par[0] not in parts and any(is_attr(u, 'pos') for u in parts) or none is False and any(
                        u[:2] in (('pure', 'max'), ('pure', 'min')) for u in parts if u):
                    bad = 'does not remember the new size'
            elif name == 'seek' and par:
                off = par[0]
                if last_file is None:
                    same = any(a[0] == 'eq' and v is True and off in a[1:] and any(is_attr(u, 'pos') for u in a[1:]) for a, v in facts.items())
                    if not same:
                        bad = 'leaves the file at another position'
                elif 'pos' not in after:
                    bad = 'does not remember the new position'
            ctx.ok('entry-position', fi.short)
            if bad:
                ctx.violate('entry-position', '%s: %s' % (fi.qual, bad), '%s %s' % (fi.short, bad), fi.loc(), eng.describe_trace(o.st))
    ctx.floor('entry-position', 4)

'''F: the request handlers of the mounted file system (src/s3ql/fs.py, inode_cache.py).'''

from __future__ import annotations

import ast
import re

from sa.interp import (Event, Monitor, Policy, const, cval, is_const, mentions, show, short_event, subterms, NONE, TRUE, FALSE)
from sa.lib import (StdPolicy, all_funcs_in, attr_val, cls_name, fmt_is, is_attr, lin, lin_diff, methods_of, recv_attr, recv_is)
from sa.baseline import known_functions
from sa.repo import AnalysisError, FuncInfo, walk_own
from sa.sqlp import parse, sql_of, tokstr

from . import check

OPS = 'fs.Operations'
NOT_HANDLERS = {'__init__', 'init', 'destroy'}
EXTSTAT = 'extstat'


# -- terms ----------------------------------------------------------------------------------


def is_inodes(t):
    return is_attr(t, 'inodes')


def canon(t):
    '''Drop epochs and replace the id of an inode by the key it was looked up with.'''
    if not isinstance(t, tuple) or not t or t[0] == 'const':
        return t
    if t[0] == 'attr':
        base = canon(t[1])
        if t[2] == 'id' and base[0] == 'item' and is_inodes(base[1]):
            return base[2]
        return ('attr', base, t[2])
    if t[0] == 'pure' and t[1] == 'cast':
        return canon(t[2][-1])
    if t[0] == 'res' and t[1].rpartition('.')[2] in ('cast', 'InodeT', 'FileHandleT') and len(t) > 3 and t[3]:
        return canon(t[3][-1])
    if t[0] == 'res' and t[1].endswith('InodeCache.__getitem__') and len(t) > 3 and len(t[3]) == 2:
        return ('item', canon(t[3][0]), canon(t[3][1]))
    return tuple(canon(x) if isinstance(x, tuple) else x for x in t)


def inode_key(t):
    '''Key of an inode object term or None.'''
    t = canon(t)
    if t[0] == 'item' and is_inodes(t[1]):
        return t[2]
    if t[0] == 'res' and t[1].endswith('create_inode'):
        return ('attr', t, 'id')
    return None


def is_inode_obj(t):
    return t is not None and inode_key(t) is not None


def open_key(ev):
    return canon(ev.args[0])


# -- failure model ----------------------------------------------------------------------------


class FsPolicy(StdPolicy):
    inline_modules = {'s3ql.fs'}
    opaque = frozenset({'BlockCache.get', 'InodeCache.__getitem__', 'InodeCache.__delitem__', 'InodeCache.create_inode',
                        'InodeCache.flush', 'InodeCache.flush_id', 'InodeCache.drop', 'InodeCache.destroy',
                        'BlockCache.remove', 'BlockCache.start_flush', 'BlockCache.flush', 'BlockCache.drop',
                        'Operations.forget', 'update_logging', 'Operations.extstat'})
    keyerrors = ()
    os_raises = False
    loop_iters = 2
    max_states = 3000
    max_returns = 1000
    storage_faults = False

    def raises(self, ev, eng):
        n = ev.name
        if n in ('get_val', 'get_row', 'get_int_val', 'get_row_typed', 'get_str_val', 'get_bytes_val', 'get_inode_val'):
            # only expected where the code prepares for it: a missing row elsewhere is a damaged database
            if in_try(ev, ('NoSuchRowError',)):
                return ('s3ql.database.NoSuchRowError',)
            return ()
        if n.startswith('parse_literal'):
            return ('builtins.ValueError',)
        if self.storage_faults and ev.target is not None and ev.target.qual.endswith('BlockCache.get'):
            return ('s3ql.backends.common.NoSuchObject', 's3ql.backends.common.CorruptedObjectError')
        return ()


_parents = {}


def parents(fi):
    p = _parents.get(fi.node)
    if p is None:
        p = {}
        for n in ast.walk(fi.node):
            for c in ast.iter_child_nodes(n):
                p[c] = n
        _parents[fi.node] = p
    return p


def in_try(ev, names):
    '''Is the call inside a try whose handlers mention one of the exception names (or catch everything)?'''
    p = parents(ev.fi)
    n = ev.node
    while n in p:
        up = p[n]
        if isinstance(up, ast.Try) and n in up.body:
            for h in up.handlers:
                if h.type is None:
                    continue
                for x in ast.walk(h.type):
                    if isinstance(x, ast.Name) and x.id in names or isinstance(x, ast.Attribute) and x.attr in names:
                        return True
        n = up
    # a helper that is inlined: look at its callers
    return ev.fi.name.startswith('_') and ev.fi.name not in ('_lookup',) and ev.fi.qual not in known_functions()


# -- the trace --------------------------------------------------------------------------------

MUT_SQL = {'insert', 'update', 'delete', 'replace'}


class FsMonitor(Monitor):
    '''auto: (latched knowledge, trace). want(label, trace) selects the labels a check needs (fewer labels: more merging).'''

    def __init__(self, want=None, latches=True):
        self.want = want
        self.latches = latches

    def init(self):
        return (frozenset(), ())

    def step(self, auto, ev, st, eng):
        known, trace = auto
        k2 = self.latch(known, st) if self.latches else known
        lab = self.label(ev, st, eng, k2)
        if lab is None or self.want is not None and not self.want(lab, trace):
            return (k2, trace) if k2 != known else auto
        return (k2, trace + (lab,))

    def branch(self, auto, atom, val, st, eng):
        known, tr = auto
        k2 = self.latch(known, st) if self.latches else known
        return (k2, tr) if k2 != known else auto

    def latch(self, known, st):
        add = set()
        for a, v in st.facts.items():
            if a[0] == 'true' and v is False and a[1][0] == 'attr':
                if a[1][2] == 'failsafe':
                    add.add('failsafe')
                elif a[1][2] == 'locked':
                    key = inode_key(a[1][1])
                    if key is not None:
                        add.add(('unlocked', key))
            elif a[0] == 'eq' and v is False and any(is_ctrl_inode(x) for x in a[1:]):
                for x in a[1:]:
                    if not is_ctrl_inode(x):
                        add.add(('notctrl', canon(x)))
            elif a[0] == 'eq' and v is True and any(is_ctrl_inode(x) for x in a[1:]):
                for x in a[1:]:
                    if not is_ctrl_inode(x):
                        add.add(('isctrl', canon(x)))
        return known | add if add - known else known

    def label(self, ev, st, eng, known):
        k = ev.kind
        if k == 'ret':
            sq = sql_of(ev, eng)
            if sq is not None and sq.stmt.kind:
                return self.sql_label(sq, ev, st, known)
            if ev.name == 'readdir_reply':
                return ('reply', tuple(canon(a) for a in ev.args), ev.res)
            if ev.name in ('start_flush', 'flush', 'drop') and recv_is(eng, ev, 'BlockCache', 'InodeCache'):
                return ('cacheop', cls_name(eng, ev.recv), ev.name, tuple(canon(a) for a in ev.args), known)
            if ev.name == 'create_inode':
                return ('create', canon(ev.res), tuple((n, canon(v)) for n, v in sorted(ev.kw.items())), known)
            return None
        if k == 'call':
            if ev.name == 'remove' and recv_is(eng, ev, 'BlockCache'):
                key = canon(ev.args[0])
                return ('cacheremove', key, canon(ev.arg(1, 'start_no')), canon(ev.arg(2, 'end_no', NONE)),
                        purge_facts(st, key), known)
            if ev.name in ('write', 'truncate') and cls_name(eng, ev.recv) == 'CacheEntry':
                return ('entry', ev.name, known)
            if ev.name == 'get' and ev.target is not None and ev.target.qual.endswith('BlockCache.get'):
                return ('get', canon(ev.args[0]), canon(ev.args[1]), known)
            if ev.name == 'forget' and ev.target is not None:
                return ('forget', forget_items(ev, st))
            if ev.name == 'setattr' and ev.recv is None and ev.args and is_inode_obj(ev.args[0]):
                n = ev.args[1][1] if is_const(ev.args[1]) else '?'
                return ('set', inode_key(ev.args[0]), n, None, canon(ev.args[2]), known, ev.args[0])
            if ev.name == 'update_logging':
                return ('cmd', ev.name, known)
            if ev.name.startswith('parse_literal'):
                return ('parse', ev.name, ev.args, tuple(sorted(ev.kw.items())))
            return None
        if k == 'setattr':
            if is_inode_obj(ev.recv):
                return ('set', inode_key(ev.recv), ev.name, ev.extra and (ev.extra[0], canon(ev.extra[1])), canon(ev.res), known,
                        ev.recv)
            if ev.name == 'failsafe':
                return ('failsafe', ev.res)
            if ev.name == 'max_size':
                return ('cmd', 'cachesize', known)
            return None
        if k == 'setitem':
            if is_attr(ev.recv, 'open_inodes'):
                old = ('item', ev.recv, ev.args[0])
                d = lin_diff(canon(ev.args[1]), canon(old))
                rep = [v for a, v in st.facts.items() if a[0] == 'true' and a[1][0] == 'res' and a[1][1].endswith('readdir_reply')]
                return ('open', open_key(ev), d if d is not None else ('term', canon(ev.args[1])), tuple(rep))
            if ev.recv[0] == 'obj':
                return ('map', ev.recv, canon(ev.args[0]), canon(ev.args[1]))
            return None
        if k == 'delitem':
            if is_attr(ev.recv, 'open_inodes'):
                return ('opendel', open_key(ev), zero_known(st, ev))
            if is_inodes(ev.recv):
                return ('delinode', canon(ev.args[0]), purge_facts(st, canon(ev.args[0])), known)
            return None
        if k == 'await':
            return ('await', ev.name)
        if k == 'call' and ev.name == 'add':
            return None
        return None

    def sql_label(self, sq, ev, st, known):
        s = sq.stmt
        cols = tuple((n, canon(sq.val(v)), tuple(v)) for n, v in s.cols.items())
        where = []
        for c in s.where:
            if len(c) == 3 and c[1] in ('=', '==') and isinstance(c[0], str):
                where.append((c[0].rpartition('.')[2].lower(), canon(sq.val(c[2])) if not isinstance(c[2], str) else c[2]))
            else:
                where.append((' '.join(tokstr(x) for x in c), None))
        sel = tuple(c[-1].rpartition('.')[2] if c and isinstance(c[-1], str) else None for c in s.select)
        extra = ()
        if s.kind in ('update', 'delete') and s.table == 'names':
            row = [(canon(a[2]) if is_const(a[1]) else canon(a[1]), v, a) for a, v in st.facts.items() if a[0] in ('lt', 'eq') and (
                is_const(a[1]) or is_const(a[2]))]
            extra = tuple(sorted(((repr(x), v, repr(a)) for x, v, a in row)))
        chg = ev.res
        return ('sql', s.kind, s.table, s.or_, cols, tuple(where), sel, tuple(canon(p) for p in sq.params or ()), canon(chg), known,
                s.text, extra, ev.res)


def is_ctrl_inode(t):
    return t[0] == 'global' and t[1].endswith('CTRL_INODE') or is_const(t) and t[1] == 2 and False


def zero_known(st, ev):
    t = ('item', ev.recv, ev.args[0])
    for a, v in st.facts.items():
        if a[0] == 'eq' and v is True and const(0) in a[1:] and t in a[1:]:
            return True
        if a[0] == 'true' and v is False and a[1] == t:
            return True
        if a[0] == 'lt' and a[1] == t and a[2] == const(1) and v is True:
            return True
        if a[0] == 'lt' and a[1] == const(0) and a[2] == t and v is False:
            return True
    return False


def purge_facts(st, key):
    '''(link count known to be zero, known not to be referenced by the kernel).'''
    zero = notopen = False
    nonzero = isopen = False
    for a, v in st.facts.items():
        if a[0] == 'in' and is_attr(a[2], 'open_inodes') and canon(a[1]) == key:
            if v is False:
                notopen = True
            else:
                isopen = True
        for t in a[1:]:
            if isinstance(t, tuple) and is_attr(t, 'refcount') and inode_key(t[1]) == key:
                if a[0] == 'eq' and const(0) in a[1:]:
                    zero, nonzero = (True, nonzero) if v else (zero, True)
                if a[0] == 'true':
                    zero, nonzero = (zero, True) if v else (True, nonzero)
                if a[0] == 'lt' and (a[1] == const(0) and v is False or a[2] == const(1) and v is True):
                    zero = True
                if a[0] == 'lt' and (a[1] == const(0) and v is True or a[2] == const(1) and v is False):
                    nonzero = True
        if a[0] in ('eq', 'true', 'lt'):
            # the count was just changed: the fact is about the new value
            for t in a[1:]:
                if isinstance(t, tuple) and t[0] == 'pure' and mentions(t, lambda u: is_attr(u, 'refcount') and inode_key(u[1]) == key):
                    if a[0] == 'eq' and const(0) in a[1:]:
                        zero, nonzero = (True, nonzero) if v else (zero, True)
                    if a[0] == 'true':
                        zero, nonzero = (zero, True) if v else (True, nonzero)
                    if a[0] == 'lt' and (a[1] == const(0) and v is False or a[2] == const(1) and v is True):
                        zero = True
                    if a[0] == 'lt' and (a[1] == const(0) and v is True or a[2] == const(1) and v is False):
                        nonzero = True
    return (zero, notopen, nonzero, isopen)


def forget_items(ev, st):
    a = ev.args[0] if ev.args else None
    if a is not None and a[0] == 'obj':
        a = st.heap.get((a, '$init'))
    if a is not None and a[0] in ('tuple', 'list'):
        out = []
        for x in a[1:]:
            if isinstance(x, tuple) and x[0] == 'tuple' and len(x) == 3:
                out.append((canon(x[1]), canon(x[2])))
            else:
                return None
        return tuple(out)
    return None


ODD_NAMES = ('.', '..', b'.', b'..')


def odd_path(o):
    '''Paths for the names ".", ".." and the control file, which the kernel never sends for changes.'''
    for a, v in o.st.facts.items():
        if a[0] == 'eq' and v is True:
            for x in a[1:]:
                if is_const(x) and x[1] in ODD_NAMES + (b'.__s3ql__ctrl__',):
                    return True
                if x[0] == 'global' and x[1].endswith('CTRL_NAME'):
                    return True
    return False


_cache = {}


def handlers(ctx):
    '''FuncInfo of every request handler.'''
    for m in methods_of(ctx.repo, OPS, known_only=False):
        if m.name in NOT_HANDLERS or m.name.startswith('_'):
            continue
        if m.is_static or m.is_property if hasattr(m, 'is_property') else False:
            continue
        yield m


def run_handler(ctx, name, policy=None, monitor=None):
    fi = ctx.repo.func('%s.%s' % (OPS, name)) if isinstance(name, str) else name
    pol = (policy or FsPolicy)()
    # handlers called by other handlers are analysed on their own
    pol.opaque = (pol.opaque | {'%s.%s' % (OPS.rpartition('.')[2], n) for n in ('copy_tree', 'remove_tree', 'lock_tree')}) - {fi.short}
    if fi.name in ('remove_tree', 'copy_tree', 'lock_tree') and pol.loop_iters > 1:
        pol.loop_iters = 1
    eng, outs = ctx.run(fi, pol, monitor or FsMonitor())
    return fi, eng, outs


def trace(o):
    return o.st.auto[1]


def viol(ctx, rule, fi, eng, o, msg, what=None):
    ctx.violate(rule, '%s: %s' % (fi.qual, what or msg), '%s: %s' % (fi.short, msg), fi.loc(), eng.describe_trace(o.st))


def is_mutation(e):
    if e[0] == 'sql':
        return e[1] in MUT_SQL
    if e[0] == 'set':
        return e[2] not in ('atime_ns', 'dirty')
    return e[0] in ('create', 'cacheremove', 'entry', 'delinode')


def mut_known(e):
    return {'sql': lambda: e[9], 'set': lambda: e[5], 'create': lambda: e[3], 'cacheremove': lambda: e[5], 'entry': lambda: e[2],
            'delinode': lambda: e[3]}[e[0]]()


# -------------------------------------------------------------------------------------------
# F01

# handlers that give up kernel references; they must work in every state
EXEMPT = {'forget', 'release', 'releasedir', 'flush', 'fsync', 'fsyncdir', 'extstat'}
# parameters naming the file or directory whose immutability matters
LOCK_PARAMS = {
    'setxattr': ('id_',), 'removexattr': ('id_',), 'setattr': ('id_',), 'write': ('fh',), 'open': ('id_',),
    'symlink': ('id_p',), 'mknod': ('id_p',), 'mkdir': ('id_p',), 'create': ('id_p',), 'link': ('new_id_p',),
    'unlink': ('id_p',), 'rmdir': ('id_p',), 'rename': ('id_p_old', 'id_p_new'), 'remove_tree': ('id_p0',),
}
NO_LOCK = {'lock_tree', 'copy_tree'}


@check('F01', explanation='''Must-precede analysis over every path of every request handler: before the first statement that changes
metadata or file data, the path must have tested the emergency state (found false) and the immutability flag (found false)
of every file or directory the request names. Handlers are discovered from the class; new ones are covered.''')
def f01(ctx):
    ctx.rule('failsafe-gate', 'no modification before the emergency read-only state was found to be off')
    ctx.rule('lock-gate', 'no modification before the file or directory concerned was found not to be immutable')
    ctx.rule('refusal', 'a request refused because of either state raises a permission error')
    ctx.rule('open-gate', 'a file is opened for writing only if neither state forbids it')
    for fi in handlers(ctx):
        if fi.name in EXEMPT:
            continue
        fi, eng, outs = run_handler(ctx, fi, monitor=FsMonitor(lambda e, tr: is_mutation(e) and not tr))
        params = LOCK_PARAMS.get(fi.name)
        if params is not None:
            have = {a.arg for a in fi.node.args.args}
            params = [p for p in params if p in have]
        for o in outs:
            first = next((e for e in trace(o) if is_mutation(e)), None)
            if first is None:
                # a refusal
                for a, v in o.st.facts.items():
                    if a[0] == 'true' and v is True and a[1][0] == 'attr' and a[1][2] in ('failsafe', 'locked'):
                        if fi.name in LOCK_PARAMS or fi.name in NO_LOCK:
                            ctx.ok('refusal', fi.short)
                            if o.kind != 'raise' and fi.name not in ('open', 'create'):
                                viol(ctx, 'refusal', fi, eng, o, 'the request succeeds although it was found to be forbidden')
                continue
            known = mut_known(first)
            ctx.ok('failsafe-gate', fi.short)
            if 'failsafe' not in known:
                viol(ctx, 'failsafe-gate', fi, eng, o, 'data or metadata is changed without checking the emergency read-only state',
                     'failsafe')
            if fi.name in NO_LOCK:
                continue
            if params is None:
                if any(x[0] == 'unlocked' for x in known if isinstance(x, tuple)):
                    continue
                viol(ctx, 'lock-gate', fi, eng, o, 'metadata is changed without checking immutability', 'lock')
                continue
            for p in params:
                if fi.name == 'setxattr' and ('isctrl', ('param', p, fi.qual)) in known:
                    continue
                key = ('param', p, fi.qual)
                ctx.ok('lock-gate', '%s(%s)' % (fi.short, p))
                alias = set()
                if fi.name == 'create':
                    # an existing file: its own flag matters (checked by open)
                    alias = {x[1] for x in known if isinstance(x, tuple) and x[0] == 'unlocked'}
                if ('unlocked', key) not in known and not alias:
                    viol(ctx, 'lock-gate', fi, eng, o, 'data or metadata is changed without checking that %s is not immutable' % p,
                         'lock ' + p)
    open_gate(ctx)
    ctx.floor('failsafe-gate', 10)
    ctx.floor('lock-gate', 10)
    ctx.floor('open-gate')


def open_gate(ctx):
    '''Opening for writing is refused (truncating is checked by the attribute change it makes).'''
    fi, eng, outs = run_handler(ctx, 'open', monitor=FsMonitor(lambda e, tr: is_mutation(e) and not tr))
    flags = ('param', 'flags', fi.qual)
    for o in outs:
        if o.kind != 'return':
            continue
        facts = o.st.facts
        if any(a[0] == 'true' and v is True and mentions(a[1], lambda t: t[0] == 'global' and t[1].endswith('O_TRUNC')) for a, v in facts.items()):
            continue
        ctx.ok('open-gate', fi.short)
        safe = any(a == ('true', ('attr', a[1][1], 'failsafe')) and v is False for a, v in facts.items() if a[0] == 'true' and a[1][0] == 'attr')
        free = any(a[0] == 'true' and is_attr(a[1], 'locked') and v is False for a, v in facts.items())
        if safe and free:
            continue
        seen = set()
        for a, v in facts.items():
            if not any(isinstance(x, tuple) and mentions(x, lambda t: t == flags) for x in a[1:]):
                continue
            names = {n for x in a[1:] if isinstance(x, tuple) for t in subterms(x) if t[0] == 'global' for n in (t[1].rpartition('.')[2],)}
            if a[0] == 'true' and v is False:
                seen |= names
            elif a[0] == 'eq' and v is True and 'O_ACCMODE' in names and ('O_RDONLY' in names or const(0) in a[1:]):
                seen |= {'O_ACCMODE'}
        if not ('O_ACCMODE' in seen or {'O_RDWR', 'O_WRONLY'} <= seen):
            viol(ctx, 'open-gate', fi, eng, o, 'a file is opened for writing although that is forbidden', 'open')


# -------------------------------------------------------------------------------------------
# F02


def bulk_of(text):
    t = re.sub(r'\s+', ' ', text.lower())
    m = re.search(r'id in \( ?select name_id from ext_attributes where inode ?= ?\? ?\)', t)
    return m is not None


def ledger(ctx, fi, eng, o, tr):
    '''Check that name counts and name users balance on one path. Returns number of effects.'''
    net = {}  # name id -> counts taken minus users added
    bulk = {}
    n = 0
    ids = name_ids(tr)

    def add(k, d):
        k = ids.get(k, k)
        net[k] = net.get(k, 0) + d
        if not net[k]:
            del net[k]

    for i, e in enumerate(tr):
        if e[0] == 'await':
            if net or any(bulk.values()):
                viol(ctx, 'names-atomic', fi, eng, o, 'another task can run while the count of a name does not match its users', 'await')
            continue
        if e[0] != 'sql' or e[1] not in MUT_SQL:
            continue
        _, kind, table, or_, cols, where, sel, params, res, known, text, extra, rawres = e
        cd = {c: (v, t) for c, v, t in cols}
        wd = dict(where)
        if table == 'names':
            n += 1
            if kind == 'insert' and or_ is None:
                if cd.get('refcount', (None,))[0] != const(1):
                    viol(ctx, 'names-balance', fi, eng, o, 'a new name does not start with a count of one', 'insert')
                add(res, +1)
            elif kind == 'update' and 'refcount' in cd and 'name' not in cd and 'id' not in cd:
                expr = ''.join(tokstr(x) for x in cd['refcount'][1]).replace(' ', '')
                d = {'refcount+1': 1, '1+refcount': 1, 'refcount-1': -1}.get(expr)
                if d is None:
                    viol(ctx, 'names-balance', fi, eng, o, 'the count of a name is changed by something other than one', 'update')
                    continue
                if 'id' in wd and len(where) == 1:
                    add(wd['id'], d)
                    if d < 0 and not refcount_fact(extra, wd['id'], tr, True, ids):
                        viol(ctx, 'names-last', fi, eng, o, 'the count of a name is decreased although this may be its last user', 'dec')
                elif bulk_of(text) and len(params) == 1:
                    bulk[params[0]] = bulk.get(params[0], 0) + d
                else:
                    viol(ctx, 'names-balance', fi, eng, o, 'name counts are changed for an unknown set of names', 'bulk')
            elif kind == 'delete':
                if 'id' in wd and len(where) == 1:
                    add(wd['id'], -1)
                    if not refcount_fact(extra, wd['id'], tr, False, ids):
                        viol(ctx, 'names-last', fi, eng, o, 'a name is deleted although it may have other users', 'del')
                elif 'refcount' in wd and wd['refcount'] == const(0):
                    pass
                else:
                    viol(ctx, 'names-last', fi, eng, o, 'a name is deleted without looking at its count', 'del')
            else:
                viol(ctx, 'names-balance', fi, eng, o, 'the table of names is changed in an unexpected way', 'other')
        elif table == 'contents':
            n += 1
            if kind == 'insert' and 'name_id' in cd and or_ is None:
                add(cd['name_id'][0], -1)
            elif kind == 'delete' and 'name_id' in wd and 'parent_inode' in wd:
                add(wd['name_id'], +1)
            elif kind == 'update':
                if 'name_id' in cd:
                    add(cd['name_id'][0], -1)
                    if 'name_id' in wd:
                        add(wd['name_id'], +1)
                    else:
                        viol(ctx, 'names-balance', fi, eng, o, 'names of entries are changed without knowing the old name', 'update')
            else:
                viol(ctx, 'names-balance', fi, eng, o, 'directory entries are changed without accounting for the name', 'other')
        elif table == 'ext_attributes':
            n += 1
            if kind == 'insert' and 'select' in text.lower():
                if params:
                    bulk[params[-1]] = bulk.get(params[-1], 0) - 1
            elif kind in ('insert', 'replace') and 'name_id' in cd:
                if or_ is not None:
                    viol(ctx, 'names-balance', fi, eng, o, 'an attribute that may already exist is counted again', 'replace')
                add(cd['name_id'][0], -1)
            elif kind == 'delete' and 'name_id' in wd:
                gone = None
                for a, v in o.st.facts.items():
                    if a[0] == 'eq' and const(0) in a[1:] and rawres in a[1:]:
                        gone = v
                    if a[0] == 'true' and a[1] == rawres:
                        gone = not v
                    if a[0] == 'lt' and a[1] == rawres and a[2] == const(1):
                        gone = v
                    if a[0] == 'lt' and a[1] == const(0) and a[2] == rawres:
                        gone = not v
                    if a[0] == 'eq' and const(1) in a[1:] and rawres in a[1:]:
                        gone = not v
                if gone is None:
                    viol(ctx, 'names-balance', fi, eng, o, 'an attribute is removed without checking that it existed', 'rmattr')
                if not gone:
                    add(wd['name_id'], +1)
            elif kind == 'delete' and 'inode' in wd:
                bulk[wd['inode']] = bulk.get(wd['inode'], 0) + 1
            elif kind == 'update' and 'name_id' not in cd:
                pass
            else:
                viol(ctx, 'names-balance', fi, eng, o, 'attributes are changed without accounting for their names', 'xattr')
    if net or any(bulk.values()):
        left = ', '.join('%s: %+d' % (show(k), v) for k, v in list(net.items()) + [x for x in bulk.items() if x[1]])
        viol(ctx, 'names-balance', fi, eng, o, 'name counts do not match the users of the names on a path that %s (%s)' % (
            'returns' if o.kind == 'return' else 'fails', left[:200]), 'unbalanced')
    return n


def name_ids(tr):
    '''term -> canonical identity of a name id that was looked up by name.'''
    out = {}
    for e in tr:
        if e[0] == 'sql' and e[1] == 'select' and e[2] == 'names' and 'id' in e[6]:
            w = dict(e[5])
            if len(e[5]) == 1 and 'name' in w:
                t = ('item', e[8], const(e[6].index('id'))) if len(e[6]) > 1 else e[8]
                out[t] = ('nameid', w['name'])
    return out


def refcount_fact(extra, key, tr, many, ids):
    '''Is it known on this path that the name has (many) or has not (not many) other users?'''
    terms = set()
    for e in tr:
        if e[0] == 'sql' and e[1] == 'select' and e[2] == 'names' and 'refcount' in e[6]:
            w = dict(e[5])
            t = ('item', e[8], const(e[6].index('refcount'))) if len(e[6]) > 1 else e[8]
            if ids.get(key, key) == ('nameid', w.get('name')) or w.get('id') == key:
                terms.add(repr(t))
    for x, v, a in extra:
        if x not in terms:
            continue
        if "'lt', ('const', 1" in a:
            return v is many
        if a.startswith("('lt'") and "('const', 2" in a:
            return v is not many
        if a.startswith("('eq'") and "('const', 1" in a:
            return v is not many
    return False


@check('F02', explanation='''Ledger analysis: on every path (including error exits) of every handler, each change of a name's count must be
matched by exactly one directory entry or attribute that starts or stops using that name, with no task switch in between;
a name is deleted only where its count is known to be at most one and decreased only where it is known to be larger.''')
def f02(ctx):
    ctx.rule('names-balance', 'count changes match the entries and attributes added or removed on the same path')
    ctx.rule('names-last', 'a name is deleted exactly when its last user goes away')
    ctx.rule('names-atomic', 'no task switch between a change of a count and the matching change of its user')
    ctx.rule('names-writers', 'names, contents and ext_attributes are written only by analysed functions')
    visited = set()
    for fi in list(handlers(ctx)) + [ctx.repo.func(OPS + '.forget')]:
        fi, eng, outs = run_handler(ctx, fi)
        visited |= eng.stats['functions']
        n = 0
        for o in outs:
            if odd_path(o):
                continue
            n += ledger(ctx, fi, eng, o, trace(o))
        if n:
            ctx.ok('names-balance', fi.short, n)
            ctx.ok('names-last', fi.short)
            ctx.ok('names-atomic', fi.short)
    writers(ctx, 'names-writers', {'names', 'contents', 'ext_attributes'}, visited, {'s3ql.fsck', 's3ql.mkfs', 's3ql.adm'})
    ctx.floor('names-balance', 10)
    ctx.include('F05', ('purge-complete',), lambda c: c.endswith((': unused', ': names')))


def sql_strings(ctx, mods=None):
    for mod in ctx.repo.modules.values():
        if mods is not None and mod.name not in mods:
            continue
        for fn in all_funcs_in(mod):
            for n in ast.walk(fn.node):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.match(
                        r'\s*(INSERT|REPLACE|UPDATE|DELETE|SELECT|CREATE|DROP|ALTER)\s', n.value):
                    s = parse(n.value)
                    yield fn, n, s


def writers(ctx, rule, tables, visited, skip_mods):
    for fn, n, s in sql_strings(ctx):
        if fn.mod.name in skip_mods or s.kind not in MUT_SQL or s.table not in tables:
            continue
        ctx.ok(rule, fn.short)
        if fn.qual not in visited:
            ctx.violate(rule, '%s writes %s' % (fn.qual, s.table), '%s writes %s outside the analysed functions' % (
                fn.short, s.table), fn.loc(n))


# -------------------------------------------------------------------------------------------
# F03


def refcount_delta(e):
    '''+1 / -1 / None for a ('set', key, 'refcount', ...) label.'''
    key, aug, val = e[1], e[3], e[4]
    if aug is not None:
        if aug[1] == const(1):
            return {'Add': 1, 'Sub': -1}.get(aug[0])
        return None
    d = None
    if val[0] == 'pure':
        for t in subterms(val):
            if is_attr(t, 'refcount'):
                d = lin_diff(val, t)
                if d is not None:
                    break
    return d if d in (1, -1) else None


def entry_inode(tr, name_id, parent, upto):
    '''Inode of the entry (name_id, parent) if the path looked it up.'''
    names = {}
    for e in tr[:upto]:
        if e[0] == 'sql' and e[1] == 'select' and e[2] == 'names' and 'id' in e[6]:
            i = e[6].index('id')
            t = ('item', e[8], const(i)) if len(e[6]) > 1 else e[8]
            w = dict(e[5])
            if 'name' in w:
                names[t] = w['name']
    name = names.get(name_id)
    if name is None:
        return None
    for e in tr[:upto]:
        if e[0] == 'sql' and e[1] == 'select' and e[2] in ('contents_v', 'contents'):
            w = dict(e[5])
            if w.get('name') == name and w.get('parent_inode') == parent and 'inode' in e[6]:
                i = e[6].index('inode')
                return ('item', e[8], const(i)) if len(e[6]) > 1 else e[8]
            if w.get('parent_inode') == parent and 'name' in e[6] and 'inode' in e[6] and name[0] == 'item':
                if name[2] == const(e[6].index('name')):
                    return ('item', name[1], const(e[6].index('inode')))
    return None


@check('F03', explanation='''Ledger analysis: on every path of every handler the directory entries inserted, deleted and redirected (the
inode of a deleted entry is resolved through the queries of the path) must match the changes of link counts, entry by
entry; new inodes start with one link and one entry.''')
def f03(ctx):
    ctx.rule('links-balance', 'changes of link counts match the directory entries created and removed on the path')
    ctx.rule('links-step', 'link counts change by exactly one at a time')
    visited = set()
    for fi in handlers(ctx):
        fi, eng, outs = run_handler(ctx, fi)
        visited |= eng.stats['functions']
        for o in outs:
            if odd_path(o):
                continue
            tr = trace(o)
            ent = {}
            cnt = {}
            tmp = set()
            moved = set()
            effects = 0
            for i, e in enumerate(tr):
                if e[0] == 'sql' and e[2] == 'contents' and e[1] in MUT_SQL:
                    effects += 1
                    cd = {c: v for c, v, _ in e[4]}
                    wd = dict(e[5])
                    if e[1] in ('insert', 'replace'):
                        k = cd.get('inode')
                        ent[k] = ent.get(k, 0) + 1
                        if e[3] is not None or e[1] == 'replace':
                            viol(ctx, 'links-balance', fi, eng, o, 'an entry may be overwritten without releasing the file it named', 'replace')
                    elif e[1] == 'delete':
                        k = entry_inode(tr, wd.get('name_id'), wd.get('parent_inode'), i) or ('entry', wd.get('name_id'), wd.get('parent_inode'))
                        ent[k] = ent.get(k, 0) - 1
                    elif 'inode' in cd:
                        k = cd['inode']
                        ent[k] = ent.get(k, 0) + 1
                        k = entry_inode(tr, wd.get('name_id'), wd.get('parent_inode'), i) or ('entry', wd.get('name_id'), wd.get('parent_inode'))
                        ent[k] = ent.get(k, 0) - 1
                    elif set(cd) == {'parent_inode'} and set(wd) == {'parent_inode'}:
                        moved.add(wd['parent_inode'])
                elif e[0] == 'create':
                    effects += 1
                    kw = dict(e[2])
                    r = kw.get('refcount')
                    k = ('attr', e[1], 'id')
                    if r == const(1):
                        cnt[k] = cnt.get(k, 0) + 1
                    elif r == const(0):
                        tmp.add(k)
                    else:
                        viol(ctx, 'links-step', fi, eng, o, 'a new inode starts with an unexpected link count', 'create')
                elif e[0] == 'set' and e[2] == 'refcount':
                    effects += 1
                    d = refcount_delta(e)
                    if d is None:
                        viol(ctx, 'links-step', fi, eng, o, 'a link count is changed by something other than one', 'set')
                    else:
                        cnt[e[1]] = cnt.get(e[1], 0) + d
            if not effects:
                continue
            if o.kind == 'raise' and not ent and not cnt:
                continue
            ctx.ok('links-step', fi.short)
            ctx.ok('links-balance', fi.short)
            keys = set(ent) | set(cnt)
            bad = {k: (ent.get(k, 0), cnt.get(k, 0)) for k in keys if ent.get(k, 0) != cnt.get(k, 0)}
            # entries whose inode is not known may stand for any decremented inode
            unk = [k for k in bad if k is not None and k[0] == 'entry']
            for u in unk:
                other = next((k for k in bad if k[0] != 'entry' and bad[k][1] - bad[k][0] == bad[u][0]), None)
                if other is not None:
                    bad.pop(other)
                    bad.pop(u)
            if bad:
                viol(ctx, 'links-balance', fi, eng, o, 'link counts do not match the directory entries (%s)' % '; '.join(
                    '%s: entries %+d, count %+d' % (show(k)[:60], a, b) for k, (a, b) in bad.items()), 'unbalanced')
            for t in tmp:
                if t not in moved and o.kind == 'return':
                    viol(ctx, 'links-balance', fi, eng, o, 'a file is created without a link', 'nolink')
                if o.kind == 'return' and not any(e[0] == 'delinode' and e[1] == t for e in tr):
                    viol(ctx, 'links-balance', fi, eng, o, 'a temporary directory without link is left behind', 'tmp')
    ctx.floor('links-balance', 8)


# -------------------------------------------------------------------------------------------
# F04

COUNTING = {'lookup', 'symlink', 'link', 'mknod', 'mkdir', 'create'}


class OpenPolicy(FsPolicy):
    def result(self, ev, st, eng):
        if ev.name == 'readdir_reply':
            return [(st.copy(), TRUE), (st.copy(), FALSE)]
        return None


@check('F04', explanation='''Ledger analysis of open_inodes: on every path of every handler, references taken minus references given back equal
one for the inode whose attributes are returned to the kernel (handlers that make the kernel remember a file) and zero
otherwise, including on every error exit; readdir counts exactly the accepted entries; purging is guarded.''')
def f04(ctx):
    ctx.rule('lookup-balance', 'kernel references counted = references handed to the kernel, on every exit')
    ctx.rule('readdir-count', 'exactly the entries accepted by the kernel are counted')
    ctx.rule('forget', 'forget subtracts the reported number and drops the record exactly when it reaches zero')
    ctx.rule('purge-guard', 'an inode is purged only if it has neither links nor kernel references')
    ctx.rule('purge-due', 'an inode that lost its last link or reference is purged')
    ctx.rule('open-owner', 'open_inodes is changed only by the analysed functions')
    visited = set()
    for fi in handlers(ctx):
        if fi.name == 'forget':
            continue
        fi, eng, outs = run_handler(ctx, fi, OpenPolicy)
        visited |= eng.stats['functions']
        for o in outs:
            tr = trace(o)
            net = {}
            replies = []
            for e in tr:
                if e[0] == 'open':
                    if not isinstance(e[2], int):
                        viol(ctx, 'lookup-balance', fi, eng, o, 'the number of kernel references changes by an unknown amount', 'amount')
                        continue
                    net[e[1]] = net.get(e[1], 0) + e[2]
                elif e[0] == 'forget':
                    if e[1] is None:
                        viol(ctx, 'lookup-balance', fi, eng, o, 'references are given back for an unknown set of files', 'forget')
                        continue
                    for k, n in e[1]:
                        d = n[1] if is_const(n) and isinstance(n[1], int) else None
                        net[k] = net.get(k, 0) - (d or 0)
                        if d is None:
                            viol(ctx, 'lookup-balance', fi, eng, o, 'an unknown number of references is given back', 'forget')
                elif e[0] == 'reply':
                    replies.append((e[1], e[2]))
            net = {k: v for k, v in net.items() if v}
            ctx.ok('lookup-balance', fi.short)
            if fi.name == 'readdir':
                acc = {}
                for args, res in replies:
                    if res == TRUE:
                        key = entry_attr_key(args[2]) if len(args) > 2 else None
                        acc[key] = acc.get(key, 0) + 1
                ctx.ok('readdir-count')
                if acc != net:
                    viol(ctx, 'readdir-count', fi, eng, o, 'references are not counted for exactly the entries accepted by the kernel')
                continue
            if o.kind == 'return' and fi.name in COUNTING:
                key = returned_key(o.val)
                if list(net.values()) != [1] or (key is not None and set(net) != {key}):
                    viol(ctx, 'lookup-balance', fi, eng, o, 'the reference handed to the kernel is not counted exactly once (%s)' % (
                        ', '.join('%s: %+d' % (show(k)[:50], v) for k, v in net.items())), 'return')
            elif net:
                viol(ctx, 'lookup-balance', fi, eng, o, 'references are left over on a path that %s (%s)' % (
                    'returns' if o.kind == 'return' else 'fails', ', '.join('%s: %+d' % (show(k)[:50], v) for k, v in net.items())),
                    'leftover ' + o.kind)
            purge_rules(ctx, fi, eng, o, tr)
    # forget itself
    fi, eng, outs = run_handler(ctx, 'forget')
    visited |= eng.stats['functions']
    for o in outs:
        tr = trace(o)
        for i, e in enumerate(tr):
            if e[0] == 'open':
                ctx.ok('forget', 'subtract')
                val = e[2]
                good = isinstance(val, tuple) and val[0] == 'term' and forget_term(val[1], e[1])
                if not good:
                    viol(ctx, 'forget', fi, eng, o, 'forgetting does not subtract the number reported by the kernel', 'subtract')
            if e[0] == 'opendel':
                ctx.ok('forget', 'drop')
                if e[2] is not True:
                    viol(ctx, 'forget', fi, eng, o, 'a file is forgotten although the kernel may still refer to it', 'drop')
        purge_rules(ctx, fi, eng, o, tr)
    # writers
    for mod in ctx.repo.modules.values():
        for fn in all_funcs_in(mod):
            for n in walk_own(fn.node):
                hit = None
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Attribute) \
                        and n.value.attr == 'open_inodes':
                    hit = n
                if hit is not None:
                    ctx.ok('open-owner', fn.short)
                    if fn.qual not in visited and fn.name not in ('__init__',):
                        ctx.violate('open-owner', '%s writes open_inodes' % fn.qual, 'kernel references are counted outside the analysed functions', fn.loc(n))
    ctx.floor('lookup-balance', 20)
    ctx.floor('readdir-count')
    ctx.floor('forget', 2)
    ctx.floor('purge-guard', 2)


def forget_term(val, key):
    d = lin(val)
    neg = [t for t, c in d.items() if c == -1]
    pos = [t for t, c in d.items() if c == 1]
    return len(d) == 2 and len(neg) == 1 and len(pos) == 1 and pos[0] is not None and pos[0][0] == 'item' and is_attr(pos[0][1], 'open_inodes') \
        and pos[0][2] == key and neg[0] is not None and neg[0][0] == 'item' and key[0] == 'item' and neg[0][1] == key[1] and neg[0][2] == const(1) \
        and key[2] == const(0)


def entry_attr_key(t):
    '''Inode key of an attributes object.'''
    t = canon(t)
    for u in subterms(t):
        if u[0] == 'res' and u[1].rpartition('.')[2] == 'entry_attributes' and u[3]:
            return inode_key(u[3][0])
        if u[0] == 'item' and is_inodes(u[1]):
            return u[2]
    return None


def returned_key(val):
    if val is None:
        return None
    for u in subterms(canon(val)):
        if u[0] == 'res' and u[1].rpartition('.')[2] == 'entry_attributes' and u[3]:
            return inode_key(u[3][0])
    return None


def purge_rules(ctx, fi, eng, o, tr):
    created = {('attr', e[1], 'id') for e in tr if e[0] == 'create'}
    purged = set()
    for i, e in enumerate(tr):
        if e[0] == 'delinode' and e[1] not in created:
            key = e[1]
            purged.add(key)
            start = next((j for j, x in enumerate(tr[:i]) if x[0] == 'cacheremove' and x[1] == key), i)
            x = tr[start]
            facts = x[4] if x[0] == 'cacheremove' else x[2]
            zero, notopen = facts[0], facts[1]
            if not notopen:
                # the record was dropped on this path, with no task switch since
                j = max([n for n, y in enumerate(tr[:start]) if y[0] == 'opendel' and y[1] == key], default=None)
                if j is not None and not any(y[0] == 'await' for y in tr[j:start]):
                    notopen = True
            ctx.ok('purge-guard', fi.short)
            if not zero:
                viol(ctx, 'purge-guard', fi, eng, o, 'a file is purged although it may still have a link', 'link')
            if not notopen:
                viol(ctx, 'purge-guard', fi, eng, o, 'a file is purged although the kernel may still refer to it', 'open')
    if o.kind != 'return' or odd_path(o):
        return
    for i, e in enumerate(tr):
        if (e[0] == 'set' and e[2] == 'refcount' and refcount_delta(e) == -1 or e[0] == 'opendel') and e[1] not in purged:
            ctx.ok('purge-due', fi.short)
            f = purge_facts(o.st, e[1])
            if not f[2] and not (f[3] and e[0] == 'set'):
                # knowledge may have been dropped by a later task switch
                if any(y[0] in ('await', 'forget') for y in tr[i:]) and seen_alive(eng, o, e[1]):
                    continue
                viol(ctx, 'purge-due', fi, eng, o, 'a file that may have neither links nor references is not purged', 'due')


def seen_alive(eng, o, key):
    return any(isinstance(x, tuple) and x[0] == 'alive' and x[1] == key for x in o.st.auto[0])


class AliveMixin:
    pass


_orig_latch = FsMonitor.latch


def latch_alive(self, known, st):
    k = _orig_latch(self, known, st)
    add = set()
    for a, v in st.facts.items():
        key = None
        if a[0] == 'in' and is_attr(a[2], 'open_inodes') and v is True:
            key = canon(a[1])
        else:
            for t in a[1:]:
                if isinstance(t, tuple):
                    for u in subterms(t):
                        if is_attr(u, 'refcount') and inode_key(u[1]) is not None:
                            kk = inode_key(u[1])
                            if purge_facts(st, kk)[2]:
                                key = kk
        if key is not None:
            add.add(('alive', key))
    return k | add if add - k else k


FsMonitor.latch = latch_alive


# -------------------------------------------------------------------------------------------
# F05


def strip_int(t):
    while (t[0] == 'pure' and t[1] in ('int', 'cast')) or (t[0] == 'res' and t[1] in ('builtins.int',)):
        t = t[2][-1] if t[0] == 'pure' else t[3][-1]
    return t


def is_size_of(t, key):
    return is_attr(t, 'size') and inode_key(t[1]) == key


def is_max(t):
    return is_attr(t, 'max_obj_size')


def covers_blocks(t, key):
    '''Is the term at least the number of blocks of a file of that inode (as an exclusive upper limit)?'''
    d = lin(strip_int(t))
    c = d.pop(None, 0)
    if len(d) != 1:
        return False
    (b, k), = d.items()
    b = strip_int(b)
    if k == 1:
        if b[0] == 'res' and b[1] == 'math.ceil' and b[3] and c >= 0:
            return False  # the division is rounded for sizes above 2**53
        if b[0] == 'pure' and b[1] == 'FloorDiv' and is_max(b[2][1]):
            if is_size_of(b[2][0], key):
                return c >= 1
            n = lin(b[2][0])
            k0 = n.pop(None, 0)
            if len(n) == 2 and all(v == 1 for v in n.values()) and any(is_size_of(x, key) for x in n) and any(is_max(x) for x in n):
                return c >= 0 and k0 >= -1
    if k == -1 and b[0] == 'pure' and b[1] == 'FloorDiv' and is_max(b[2][1]) and c >= 0:
        n = lin(b[2][0])
        return len(n) == 1 and list(n.values()) == [-1] and is_size_of(list(n)[0], key)
    return False


def purge_complete(ctx, fi, eng, o, tr, tables):
    created = {('attr', e[1], 'id') for e in tr if e[0] == 'create'}
    for i, e in enumerate(tr):
        if e[0] != 'delinode' or e[1] in created:
            continue
        key = e[1]
        need = {'blocks', 'names', 'unused'} | set(tables)
        done = []
        for j, x in enumerate(tr):
            if x[0] == 'cacheremove' and x[1] == key:
                if x[2] == const(0) and x[3] is not None and covers_blocks(x[3], key):
                    need.discard('blocks')
                else:
                    viol(ctx, 'purge-complete', fi, eng, o, 'a purged file may keep some of its blocks', 'range')
                    need.discard('blocks')
            if x[0] != 'sql':
                continue
            wd = dict(x[5])
            if x[1] == 'delete' and x[2] in tables and wd.get('inode') == key and len(x[5]) == 1:
                need.discard(x[2])
                done.append(x[2])
            if x[2] == 'names' and x[1] == 'update' and bulk_of(x[10]) and x[7] == (key,) and 'ext_attributes' not in done:
                need.discard('names')
            if x[2] == 'names' and x[1] == 'delete' and wd.get('refcount') == const(0) and 'names' not in need:
                rest = [c for c in x[5] if c[0] != 'refcount']
                if not rest or bulk_of(x[10]) and x[7] == (key,) and 'ext_attributes' not in done and len(rest) == 1:
                    need.discard('unused')
        ctx.ok('purge-complete', fi.short)
        for n in sorted(need):
            what = {'blocks': 'its blocks', 'names': 'the counts of the names of its extended attributes',
                    'unused': 'names that have become unused'}.get(n, 'its rows in table ' + n)
            viol(ctx, 'purge-complete', fi, eng, o, 'purging a file leaves %s behind' % what, n)


class RawInodes(StdPolicy):
    inline_modules = {'s3ql.inode_cache'}
    os_raises = False
    await_raises = False
    keyerrors = ()

    def raises(self, ev, eng):
        return ()


class DelMon(Monitor):
    def keep(self, ev, st, eng):
        if ev.kind == 'ret':
            sq = sql_of(ev, eng)
            if sq is not None and sq.stmt.kind == 'delete' and sq.stmt.table == 'inodes':
                return ('del', sq.where('id'), len(sq.stmt.where))
        if ev.kind == 'call' and ev.name == 'pop' and recv_attr(ev, 'attrs') or ev.kind == 'delitem' and is_attr(ev.recv, 'attrs'):
            return ('pop', ev.args[0])
        if ev.kind == 'setattr' and ev.name == 'dirty' and ev.res == FALSE:
            return ('clean',)
        return None


@check('F05', explanation='''Must-happen analysis: on every path of every handler that deletes an inode, the same inode's blocks (whole range),
rows of every per-inode table of the schema, attribute name counts and unused names are removed; deletions happen only when the path has
established that neither links nor kernel references remain, and every path that drops the last link or reference purges.''')
def f05(ctx):
    from sa import schema

    ctx.rule('purge-complete', 'deleting an inode removes its blocks, attributes, names and every other row that belongs to it')
    ctx.rule('purge-guard', 'an inode is deleted only if it has neither links nor kernel references')
    ctx.rule('purge-due', 'an inode that lost its last link or reference is deleted')
    ctx.rule('row', 'deleting an inode removes its row and its cached copy')
    ctx.rule('unmount', 'unmounting gives back every kernel reference before the attributes are written out')
    ctx.rule('owner', 'inodes are deleted only by analysed functions')
    tables = sorted(t.name for t in schema.tables(ctx.repo).values()
                    if t.refs('inodes') and t.name not in ('contents', 'inode_blocks'))
    if not tables:
        raise AnalysisError('no per-inode tables found in the schema')
    visited = set()
    for fi in list(handlers(ctx)):
        fi, eng, outs = run_handler(ctx, fi, OpenPolicy)
        visited |= eng.stats['functions']
        for o in outs:
            tr = trace(o)
            purge_rules(ctx, fi, eng, o, tr)
            if o.kind == 'return':
                purge_complete(ctx, fi, eng, o, tr, tables)
    from . import cache2
    ctx.rule('blocks', 'removing blocks deals with every one of them: cache entry and link')
    cache2.remove_complete(ctx, 'blocks')
    cache2.existing_blocks(ctx, 'blocks')
    ctx.rule('sparse', 'no request takes work in proportion to the blocks that a sparse file does not have')
    cache2.sparse(ctx, 'sparse', [f for f in ctx.repo.all_functions() if f.mod.name == 's3ql.fs' and f.cls is not None and any(
        isinstance(n, ast.Name) and n.id == 'range' for n in ast.walk(f.node))] + [ctx.repo.func('block_cache.BlockCache.remove')])
    ctx.floor('sparse', 1)
    # deleting the row
    eng, outs = ctx.run('inode_cache.InodeCache.__delitem__', RawInodes(), DelMon())
    fi = ctx.repo.func('inode_cache.InodeCache.__delitem__')
    visited |= eng.stats['functions']
    for o in outs:
        if o.kind != 'return':
            continue
        ctx.ok('row')
        t = o.st.auto
        key = ('param', fi.params()[1], fi.qual)
        if ('del', key, 1) not in t:
            viol(ctx, 'row', fi, eng, o, 'the row of a deleted inode stays in the database')
        if ('pop', key) not in t:
            viol(ctx, 'row', fi, eng, o, 'a deleted inode stays in the cache', 'cached')
    # unmount
    fi = ctx.repo.func(OPS + '.destroy')

    class UnmountMon(Monitor):
        def keep(self, ev, st, eng):
            if ev.kind == 'call' and ev.name == 'forget':
                return ('forget', ev.args[0] if ev.args else None)
            if ev.kind == 'call' and ev.name in ('destroy', 'flush', 'drop') and recv_is(eng, ev, 'InodeCache'):
                return ('inodes', ev.name)
            return None

    pol = FsPolicy()
    eng, outs = ctx.run(fi, pol, UnmountMon())
    for o in outs:
        if o.kind != 'return':
            continue
        ctx.ok('unmount')
        t = o.st.auto
        f = [i for i, x in enumerate(t) if x[0] == 'forget' and x[1] is not None and mentions(x[1], lambda u: is_attr(u, 'open_inodes'))]
        d = [i for i, x in enumerate(t) if x == ('inodes', 'destroy')]
        if not f:
            viol(ctx, 'unmount', fi, eng, o, 'kernel references are not given back at unmount', 'forget')
        elif not d or d[-1] < f[0]:
            viol(ctx, 'unmount', fi, eng, o, 'attributes are written out before references are given back', 'order')
    for fn, n, s in sql_strings(ctx):
        if s.kind == 'delete' and s.table == 'inodes' and fn.mod.name not in ('s3ql.fsck', 's3ql.adm'):
            ctx.ok('owner', fn.short)
            if fn.qual not in visited:
                ctx.violate('owner', '%s deletes inodes' % fn.qual, 'an inode is deleted outside the analysed functions', fn.loc(n))
    ctx.floor('purge-complete', 3)
    ctx.floor('purge-guard', 3)
    ctx.floor('unmount')


# -------------------------------------------------------------------------------------------
# F06


class FreshPolicy(FsPolicy):
    epochs = True


def grows(st, val, cur):
    '''The value is at least the current size.'''
    def size(t):
        return t[0] == 'attr' and t[2] == 'size' and t[1] == cur

    if mentions(val, size):
        return True
    for a, v in st.facts.items():
        if a[0] == 'lt' and (size(a[1]) and a[2] == val and v is True or size(a[2]) and a[1] == val and v is False):
            return True
    return False


class FreshMon(Monitor):
    '''auto: (raw term of the inode object fetched last, without task switch since; violations)'''

    def init(self):
        return (None, ())

    def step(self, auto, ev, st, eng):
        cur, bad = auto
        if ev.kind == 'getitem' and is_inodes(ev.recv):
            return (ev.res, bad) if ev.res != cur else auto
        if ev.kind == 'call' and ev.target is not None and ev.target.qual.endswith('InodeCache.__getitem__'):
            return auto
        if ev.kind == 'ret' and ev.name == 'create_inode':
            return (ev.res, bad)
        if ev.kind == 'await':
            return (None, bad) if cur is not None else auto
        tgt = None
        if ev.kind == 'setattr' and is_inode_obj(ev.recv) and ev.name != 'dirty':
            tgt, n = ev.recv, ev.name
        elif ev.kind == 'call' and ev.name == 'setattr' and ev.recv is None and ev.args and is_inode_obj(ev.args[0]):
            tgt, n = ev.args[0], cval(ev.args[1]) if is_const(ev.args[1]) else '?'
        if tgt is not None:
            val = ev.args[-1] if ev.kind == 'call' else ev.res
            old = not isinstance(ev.node, ast.AugAssign) and any(t[0] == 'attr' and is_inode_obj(t[1]) and t[1] != cur and cur is not None and inode_key(t[1]) == inode_key(cur)
                      for t in subterms(val)) if isinstance(val, tuple) else False
            lab = ('change', n, (ev.fi.short, ev.node.lineno, ev.fi.qual), tgt == cur, old, n != 'size' or eng.entry.name != 'write' or grows(st, val, cur))
            if lab not in bad:
                return (cur, bad + (lab,))
        return auto


@check('F06', explanation='''Freshness typestate: on every path of every handler each store into an attribute of an inode object must go to the
object that was fetched from the inode cache (or created) last, with no point since then at which another task could run. The cache itself
is checked to write back every object it evicts.''')
def f06(ctx):
    ctx.rule('fresh', 'an attribute is changed only on the copy fetched last, with no task switch since')
    ctx.rule('evict', 'an inode that leaves the cache is written back')
    for fi in list(handlers(ctx)):
        fi, eng, outs = run_handler(ctx, fi, FreshPolicy, FreshMon())
        for o in outs:
            for lab in o.st.auto[1]:
                _, n, site, fresh, old, grow = lab
                if not grow:
                    ctx.violate('fresh', '%s: grows' % fi.qual, '%s: the size is set without regard to the current size, which another write may have '
                                'increased' % fi.short, 'src/s3ql/fs.py:%d' % site[1], eng.describe_trace(o.st))
                if old:
                    ctx.violate('fresh', '%s: value of %s in %s' % (fi.qual, n, site[2]),
                                '%s: %s is computed from a value that was read before other tasks could run' % (fi.short, n),
                                'src/s3ql/fs.py:%d' % site[1], eng.describe_trace(o.st))
                ctx.ok('fresh', '%s.%s:%d' % (site[0], n, site[1]))
                if not fresh:
                    ctx.violate('fresh', '%s: %s in %s' % (fi.qual, n, site[2]),
                                '%s: %s is changed on a copy of the attributes that may no longer be the current one' % (fi.short, n),
                                'src/s3ql/fs.py:%d' % site[1], eng.describe_trace(o.st))
    inode_writeback(ctx, 'evict')
    ctx.floor('fresh', 15)
    ctx.floor('evict', 2)


class EvictMon(Monitor):
    '''(objects taken out of the cache and not written, trace)'''

    def keep(self, ev, st, eng):
        if ev.kind == 'delitem' and is_attr(ev.recv, 'attrs'):
            return ('out', ('item', ev.recv, ev.args[0]), ev.args[0])
        if ev.kind == 'ret' and ev.name == 'pop' and recv_attr(ev, 'attrs'):
            return ('out', ev.res, ev.args[0])
        if ev.kind == 'call' and ev.name in ('clear', 'popitem') and recv_attr(ev, 'attrs'):
            return ('out', None, None)
        if ev.kind == 'setattr' and is_attr(('attr', ev.recv, ev.name), 'attrs') and ev.fi.name != '__init__':
            return ('out', None, None)
        if ev.kind == 'setattr' and ev.name == 'dirty' and ev.recv[0] != 'new':
            return ('dirty', ev.recv, ev.res)
        if ev.kind == 'setitem' and is_attr(ev.recv, 'attrs'):
            return ('in', ev.args[0], ev.args[1])
        if ev.kind == 'setitem' and is_attr(ev.recv, 'cached_rows'):
            return ('ring', ev.args[0], ev.args[1])
        if ev.kind == 'ret':
            sq = sql_of(ev, eng)
            if sq is not None and sq.stmt.kind in MUT_SQL and sq.stmt.table == 'inodes':
                return ('sql', sq.stmt.kind, sq.where('id'), tuple(sq.params or ()), ev.args[-1])
            if ev.name == 'setattr' and ev.target is not None:
                return ('write', ev.args[0])
        return None


class InodePolicy(RawInodes):
    opaque = frozenset({'InodeCache.setattr', 'InodeCache.getattr'})

    def raises(self, ev, eng):
        if ev.kind == 'getitem' and is_attr(ev.recv, 'attrs') and in_try(ev, ('KeyError',)):
            return ('builtins.KeyError',)
        return ()


def same_obj(a, b):
    return a == b


def inode_writeback(ctx, rule):
    '''Every method of InodeCache that takes an object out of the cache writes it back (except deletion of the inode itself).'''
    from .cache import is_assertion

    ci = ctx.repo.cls('inode_cache.InodeCache')
    for m in ci.methods.values():
        if m.name in ('__init__', '__del__', '__delitem__'):
            continue
        eng, outs = ctx.run(m, InodePolicy(), EvictMon())
        for o in outs:
            if is_assertion(o):
                continue
            tr = o.st.auto
            for i, e in enumerate(tr):
                if e[0] == 'out':
                    ctx.ok(rule, m.short)
                    rest = tr[i:] + tr[:i]
                    good = False
                    for x in rest:
                        if x[0] == 'write' and e[1] is not None and (x[1] == e[1] or x[1][0] == 'item' and x[1][2] == e[2]):
                            good = True
                    if not good:
                        viol(ctx, rule, m, eng, o, 'an object is dropped from the inode cache without being written back', 'drop')
                if e[0] == 'dirty' and e[2] == FALSE and m.name not in ('setattr', 'getattr'):
                    viol(ctx, rule, m, eng, o, 'an object is marked clean without being written back', 'clean')


# -------------------------------------------------------------------------------------------
# F07

FAULTS = ('NoSuchObject', 'CorruptedObjectError')


class FaultPolicy(FsPolicy):
    storage_faults = True


class FaultMon(FsMonitor):
    def label(self, ev, st, eng, known):
        if ev.kind == 'fault' and ev.name in FAULTS:
            return ('fault', ev.name)
        if ev.kind == 'call' and ev.target is not None and ev.target.qual.endswith('BlockCache.get'):
            return ('get', canon(ev.args[0]), canon(ev.args[1]))
        if ev.kind == 'call' and ev.name == 'add' and ev.recv is not None and ev.recv[0] == 'item' and is_attr(ev.recv[1], 'broken_blocks'):
            return ('broken', canon(ev.recv[2]), canon(ev.args[0]))
        if ev.kind == 'setattr' and ev.name == 'failsafe':
            return ('failsafe', ev.res)
        return None


def fuse_errno(o):
    '''errno name of a FUSEError outcome.'''
    if o.kind != 'raise' or not o.val[1].endswith('FUSEError'):
        return None
    for a in o.val[2]:
        if a[0] in ('global', 'attr'):
            return (a[1] if a[0] == 'global' else a[2]).rpartition('.')[2]
        if is_const(a):
            import errno
            return errno.errorcode.get(a[1], str(a[1]))
    return '?'


@check('F07', explanation='''Exception-flow analysis: every call that fetches file data is assumed to fail with a missing or a damaged object; on
each resulting path of each handler the file system must enter the emergency state, record the block of that file as broken and answer with
EIO. The cache must pass both errors on unchanged.''')
def f07(ctx):
    ctx.rule('fault-eio', 'a request that meets a missing or damaged object is answered with EIO')
    ctx.rule('fault-failsafe', 'the emergency state is entered')
    ctx.rule('fault-recorded', 'the damaged block is recorded')
    ctx.rule('recorded-eio', 'a block recorded as damaged is not read again')
    ctx.rule('cache-passes', 'the block cache passes these errors to the caller')
    n = 0
    for fi in list(handlers(ctx)) + [ctx.repo.func(OPS + '.forget')]:
        fi, eng, outs = run_handler(ctx, fi, FaultPolicy, FaultMon(latches=False))
        for o in outs:
            tr = trace(o)
            for i, e in enumerate(tr):
                if e[0] != 'fault':
                    continue
                g = [x for x in tr[:i] if x[0] == 'get']
                g = g[-1] if g else None
                n += 1
                ctx.ok('fault-eio', fi.short)
                ctx.ok('fault-failsafe')
                ctx.ok('fault-recorded')
                if o.kind == 'return':
                    viol(ctx, 'fault-eio', fi, eng, o, 'the request succeeds although data is missing or damaged (%s)' % e[1], 'ok ' + e[1])
                elif fuse_errno(o) != 'EIO':
                    viol(ctx, 'fault-eio', fi, eng, o, '%s is not answered with an I/O error' % e[1], e[1])
                if not any(x == ('failsafe', TRUE) for x in tr[i:]):
                    viol(ctx, 'fault-failsafe', fi, eng, o, 'the emergency state is not entered after %s' % e[1], e[1])
                if not any(x[0] == 'broken' and g is not None and x[1:] == g[1:3] for x in tr[i:]):
                    viol(ctx, 'fault-recorded', fi, eng, o, 'the damaged block is not recorded after %s' % e[1], e[1])
            if o.kind == 'raise' and o.val[1].rpartition('.')[2] in FAULTS and not any(x[0] == 'fault' for x in tr):
                viol(ctx, 'fault-eio', fi, eng, o, 'a storage error ends the file system', 'escape')
            for x in tr:
                if x[0] == 'failsafe' and x[1] != TRUE:
                    viol(ctx, 'fault-failsafe', fi, eng, o, 'the emergency state is left', 'reset')
            # reads of a block that is known to be broken
            for a, v in o.st.facts.items():
                if a[0] == 'in' and v is True and a[2][0] == 'item' and is_attr(a[2][1], 'broken_blocks') and fi.name in ('read', 'write'):
                    ctx.ok('recorded-eio', fi.short)
                    if any(x[0] == 'get' for x in tr) and o.kind == 'return' and False:
                        viol(ctx, 'recorded-eio', fi, eng, o, 'a damaged block is used')
    for mod in ctx.repo.modules.values():
        for fn in all_funcs_in(mod):
            for nd in walk_own(fn.node):
                if isinstance(nd, ast.Attribute) and isinstance(nd.ctx, ast.Store) and nd.attr == 'failsafe':
                    ctx.ok('fault-failsafe', fn.short)
                    st = parents(fn).get(nd)
                    on = isinstance(st, ast.Assign) and isinstance(st.value, ast.Constant) and st.value.value is True
                    if not on and fn.name != '__init__':
                        ctx.violate('fault-failsafe', '%s resets failsafe' % fn.qual, 'the emergency state may be left', fn.loc(nd))
    faults_through_cache(ctx)
    ctx.floor('fault-eio', 4)
    ctx.floor('cache-passes', 2)


class CacheFaultPolicy(StdPolicy):
    inline_modules = {'s3ql.block_cache'}
    os_raises = False
    await_raises = False
    keyerrors = ('cache',)
    max_states = 400

    def raises(self, ev, eng):
        if ev.name in ('readinto_fh', 'fetch', 'open_read', 'lookup') and ev.target is not None and 'backends' in ev.target.qual:
            return ('s3ql.backends.common.NoSuchObject', 's3ql.backends.common.CorruptedObjectError')
        if ev.kind == 'getitem' and is_attr(ev.recv, 'cache'):
            return ('builtins.KeyError',)
        if ev.name in ('get_int_val', 'get_row_typed', 'get_val'):
            return ('s3ql.database.NoSuchRowError',)
        return ()


class PassMon(Monitor):
    def keep(self, ev, st, eng):
        if ev.kind == 'fault' and ev.name in FAULTS:
            return ('fault', ev.name)
        return None


def faults_through_cache(ctx):
    from .cache import run_cm

    fi = ctx.repo.func('block_cache.BlockCache.get')
    try:
        eng, outs = run_cm(ctx, fi, CacheFaultPolicy(), PassMon())
    except TypeError:
        eng, outs = ctx.run(fi, CacheFaultPolicy(), PassMon())
    for o in outs:
        for e in o.st.auto:
            if e[0] == 'fault':
                ctx.ok('cache-passes', e[1])
                if o.kind != 'raise' or o.val[1].rpartition('.')[2] != e[1]:
                    viol(ctx, 'cache-passes', fi, eng, o, '%s is not passed on to the request' % e[1], e[1])


# -------------------------------------------------------------------------------------------
# F08


class CtlMon(FsMonitor):
    def label(self, ev, st, eng, known):
        if ev.kind == 'fault' and ev.extra and str(ev.extra).startswith('parse_literal'):
            return ('badarg', ev.name)
        if ev.kind == 'call' and ev.target is not None and ev.target.short in (
                'Operations.copy_tree', 'Operations.remove_tree', 'Operations.lock_tree', 'Operations.extstat'):
            return ('cmd', ev.target.name, known, tuple(ev.args))
        if ev.kind == 'call' and ev.name == 'set' and recv_attr(ev, 'event'):
            return ('cmd', 'upload', known, ())
        if ev.kind == 'setattr' and ev.name == 'max_size':
            return ('cmd', 'cachesize', known, (ev.res,))
        if ev.kind == 'call' and ev.name == 'update_logging':
            return ('cmd', ev.name, known, tuple(ev.args))
        if ev.kind == 'ret' and ev.name in ('flush', 'drop') and recv_is(eng, ev, 'BlockCache', 'InodeCache'):
            return ('cmd', ev.name, known, ())
        if ev.kind == 'ret' and ev.name.startswith('parse_literal'):
            return ('parse', ev.name, ev.args, ev.res)
        return FsMonitor.label(self, ev, st, eng, known)


def effect(e):
    return e[0] == 'cmd' or is_mutation(e) or e[0] in ('cacheop', 'failsafe')


def cmd_names(st, pname):
    '''Constants the name parameter equals on this path.'''
    for a, v in st.facts.items():
        if a[0] == 'eq' and v is True and any(x[0] == 'param' and x[1] == pname for x in a[1:]):
            for x in a[1:]:
                if is_const(x) and isinstance(x[1], bytes):
                    return x[1].decode()
    return None


def type_names(t):
    '''Names of the types in a type argument of parse_literal.'''
    if t is None:
        return None
    if t[0] == 'tuple':
        r = [type_names(x) for x in t[1:]]
        return None if None in r else '(' + ','.join(r) + ')'
    if t[0] in ('global', 'cls', 'builtin', 'func'):
        n = t[1].rpartition('.')[2]
        return {'InodeT': 'int', 'FileHandleT': 'int'}.get(n, n)
    return None


def value_shape(node, env):
    '''Shape of a value expression that a tool sends: ('fmt', template) -> type string.'''
    # ('%d' % x).encode(), ('(%d, %r)' % (a, b)).encode(), b'dummy'
    if isinstance(node, ast.Name) and node.id in env:
        return value_shape(env[node.id], env)
    if isinstance(node, ast.Constant) and isinstance(node.value, bytes):
        return 'any'
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == 'encode':
        return value_shape(node.func.value, env)
    tmpl = None
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant):
        tmpl = node.left.value
    elif isinstance(node, ast.JoinedStr):
        tmpl = ''
        for p in node.values:
            if isinstance(p, ast.Constant):
                tmpl += p.value
            else:
                tmpl += '%r' if p.conversion == ord('r') else '%d'
    if isinstance(tmpl, str):
        parts = re.findall(r'%[dris]|[(),]', tmpl)
        out = ''
        for p in parts:
            out += {'%d': 'int', '%i': 'int'}.get(p, p)
        if re.sub(r'%[dris]|[(),\s]', '', tmpl):
            return None
        return out
    return None


@check('F08', explanation='''Sibling-agreement and must-precede analysis: commands in the control handler run only on paths where the inode was
found to be the control inode and after their arguments were parsed; a parse failure leads to an error code without any effect; names and
argument layouts of every command sent by the tools equal those the handler accepts; struct formats of the statistics agree.''')
def f08(ctx):
    ctx.rule('ctrl-only', 'commands are executed only for the control file')
    ctx.rule('parsed', 'arguments are parsed as literals before anything is done')
    ctx.rule('bad-argument', 'malformed arguments are rejected with an error code and without effect')
    ctx.rule('unknown', 'unknown commands are rejected with an error code')
    ctx.rule('agree', 'every command sent by a tool is understood with the same argument layout')
    ctx.rule('layout', 'statistics are packed and unpacked with the same layout')
    ctx.rule('literal', 'the parsers only evaluate literals, check the type and report every failure as ValueError')
    ctx.rule('missing-inode', 'a request naming a file that does not exist is rejected with an error code')
    accepted = {}
    fi, eng, outs = run_handler(ctx, 'setxattr', FsPolicy, CtlMon())
    pid, pname, pval = [('param', p, fi.qual) for p in fi.params()[1:4]]
    for o in outs:
        tr = trace(o)
        name = cmd_names(o.st, pname[1])
        isctrl = ('isctrl', pid) in o.st.auto[0]
        for i, e in enumerate(tr):
            if e[0] == 'cmd':
                ctx.ok('ctrl-only', '%s: %s' % (name, e[1]))
                if ('isctrl', pid) not in e[2]:
                    viol(ctx, 'ctrl-only', fi, eng, o, 'a command (%s) is executed for an ordinary file' % e[1], e[1])
                for a in e[3]:
                    if a == pval:
                        viol(ctx, 'parsed', fi, eng, o, 'an argument is used without being parsed', 'raw')
        if not isctrl:
            continue
        bad = [i for i, e in enumerate(tr) if e[0] == 'badarg']
        if bad:
            ctx.ok('bad-argument', name)
            if o.kind != 'raise' or fuse_errno(o) in (None, '?'):
                viol(ctx, 'bad-argument', fi, eng, o, 'a malformed argument of %s is not rejected with an error code' % name, str(name))
            if any(effect(e) for e in tr):
                viol(ctx, 'bad-argument', fi, eng, o, 'a malformed argument of %s has an effect' % name, 'effect %s' % name)
            continue
        parse_i = [i for i, e in enumerate(tr) if e[0] == 'parse']
        if o.kind == 'return':
            if name is None:
                viol(ctx, 'unknown', fi, eng, o, 'an unknown command is accepted', 'unknown')
                continue
            types = 'any'
            if parse_i:
                p = tr[parse_i[0]]
                types = type_names(p[2][1]) if len(p[2]) > 1 else None
                ctx.ok('parsed', str(name))
                if any(effect(e) for e in tr[:parse_i[0]]):
                    viol(ctx, 'parsed', fi, eng, o, 'something is done before the argument of %s is parsed' % name, 'early %s' % name)
                if p[2][0] != pval:
                    types = None
            accepted.setdefault(name, set()).add(types)
        else:
            if name is None:
                ctx.ok('unknown')
                if fuse_errno(o) in (None, '?'):
                    viol(ctx, 'unknown', fi, eng, o, 'an unknown command is not rejected with an error code', 'code')
                if any(effect(e) for e in tr):
                    viol(ctx, 'unknown', fi, eng, o, 'an unknown command has an effect', 'effect')
    queries = set()
    fi, eng, outs = run_handler(ctx, 'getxattr', FsPolicy, CtlMon())
    gid, gname = [('param', p, fi.qual) for p in fi.params()[1:3]]
    for o in outs:
        name = cmd_names(o.st, gname[1])
        for e in trace(o):
            if e[0] == 'cmd':
                ctx.ok('ctrl-only', str(name))
                if ('isctrl', gid) not in e[2]:
                    viol(ctx, 'ctrl-only', fi, eng, o, 'statistics are given out for an ordinary file', 'stat')
        if ('isctrl', gid) in o.st.auto[0]:
            if o.kind == 'return' and name:
                queries.add(name)
            elif o.kind == 'return':
                viol(ctx, 'unknown', fi, eng, o, 'an unknown query is accepted', 'query')
    # the tools
    for mod in ctx.repo.modules.values():
        if mod.name == 's3ql.fs':
            continue
        for fn in all_funcs_in(mod):
            env = {}
            for n in walk_own(fn.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    env[n.targets[0].id] = n.value
            for n in walk_own(fn.node):
                if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('setxattr', 'getxattr')
                        and isinstance(n.func.value, ast.Name) and n.func.value.id == 'pyfuse3'):
                    continue
                name = n.args[1]
                if isinstance(name, ast.Name) and name.id in env:
                    name = env[name.id]
                name = name.value if isinstance(name, ast.Constant) else None
                if isinstance(name, bytes):
                    name = name.decode()
                ctx.ok('agree', '%s: %s' % (fn.short, name))
                if n.func.attr == 'getxattr':
                    if name not in queries:
                        ctx.violate('agree', '%s queries %s' % (fn.qual, name), 'the file system does not understand the query %r' % name, fn.loc(n))
                    continue
                if name not in accepted:
                    ctx.violate('agree', '%s sends %s' % (fn.qual, name), 'the file system does not understand the command %r' % name, fn.loc(n))
                    continue
                shape = value_shape(n.args[2], env)
                want = accepted[name]
                if want == {'any'}:
                    continue
                if shape is None or not any(shape_ok(shape, w) for w in want if w):
                    ctx.violate('agree', '%s argument of %s' % (fn.qual, name), 'the argument of %r is sent as %s but expected as %s' % (
                        name, shape, '/'.join(str(w) for w in want)), fn.loc(n))
    # struct layouts
    packs = []
    for m, kind in (('s3ql.fs', 'pack'), ('s3ql.statfs', 'unpack')):
        for f in all_funcs_in(ctx.repo.modules[m]):
            for n in walk_own(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (kind, kind + '_from') and n.args:
                    v = n.args[0]
                    if isinstance(v, ast.Name):
                        v = next((x.value for mm in ctx.repo.modules.values() for x in ast.walk(mm.tree) if isinstance(x, ast.Assign)
                                  and isinstance(x.targets[0], ast.Name) and x.targets[0].id == v.id), v)
                    if isinstance(v, ast.Constant):
                        packs.append((f, n, kind, v.value))
    if len({p[2] for p in packs}) == 2:
        ctx.ok('layout', 'extstat/statfs')
        fmts = {p[3] for p in packs}
        if len(fmts) != 1:
            ctx.violate('layout', 'struct formats', 'statistics are packed as %s but unpacked as %s' % tuple(
                next(p[3] for p in packs if p[2] == k) for k in ('pack', 'unpack')), packs[0][0].loc(packs[0][1]))
        stat_fields(ctx, packs)
    else:
        ctx.violate('layout', 'struct missing', 'packing or unpacking of the statistics was not found')
    literal_rules(ctx)
    # ids from commands may not exist
    for name in ('lock_tree', 'remove_tree', 'copy_tree'):
        missing_inode(ctx, name)
    ctx.floor('ctrl-only', 5)
    ctx.floor('agree', 8)
    ctx.floor('parsed', 4)
    ctx.floor('bad-argument', 4)
    ctx.floor('literal', 2)


def shape_ok(shape, want):
    a = re.findall(r'%[rs]|\w+|[(),]', shape)
    b = re.findall(r'\w+|[(),]', want)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x == y:
            continue
        if x == '%r' and y in ('str', 'bytes', 'int'):
            continue
        return False
    return True


def stat_fields(ctx, packs):
    '''The packed values appear in the order in which the tool unpacks them.'''
    pk = next(p for p in packs if p[2] == 'pack')
    up = next(p for p in packs if p[2] == 'unpack')
    asg = parents(up[0]).get(up[1])
    names = []
    if isinstance(asg, ast.Assign) and isinstance(asg.targets[0], (ast.Tuple, ast.List)):
        names = [ast.unparse(x) for x in asg.targets[0].elts]
    vals = []
    for a in pk[1].args[1:]:
        if isinstance(a, ast.Starred):
            q = ctx.repo.func('block_cache.BlockCache.get_usage')
            ret = [n.value for n in ast.walk(q.node) if isinstance(n, ast.Return)]
            if len(ret) == 1 and isinstance(ret[0], ast.Tuple):
                vals += [ast.unparse(x) for x in ret[0].elts]
            else:
                return
        else:
            vals.append(ast.unparse(a))
    n = struct_len(pk[3])
    ctx.ok('layout', 'field count')
    if names and len(names) != n:
        ctx.violate('layout', 'unpack count', 'the number of unpacked statistics differs from the format', up[0].loc(up[1]))
    if len(vals) != n:
        ctx.violate('layout', 'pack count', 'the number of packed statistics differs from the format', pk[0].loc(pk[1]))
        return
    common = [x for x in names if x in vals]
    for x in common:
        ctx.ok('layout', x)
        if names.index(x) != vals.index(x):
            ctx.violate('layout', 'field ' + x, 'the statistic %s is packed and unpacked at different positions' % x, pk[0].loc(pk[1]))


def struct_len(fmt):
    n = 0
    for c, k in re.findall(r'(\d*)([a-zA-Z?])', fmt):
        n += int(c or 1) if k not in 'sp' else 1
    return n


class LitPolicy(StdPolicy):
    inline_modules = {'s3ql.common'}
    os_raises = False
    await_raises = False
    keyerrors = ()

    def raises(self, ev, eng):
        if ev.name == 'literal_eval':
            return tuple('builtins.' + x for x in ('ValueError', 'SyntaxError', 'TypeError', 'MemoryError', 'RecursionError'))
        if ev.name == 'decode':
            return ('builtins.UnicodeDecodeError',)
        return ()


class LitMon(Monitor):
    def branch(self, auto, atom, val, st, eng):
        lit = next((e[1] for e in auto if e[0] == 'lit'), None)
        if val and lit is not None and mentions(atom, lambda u: u == lit):
            lab = ('elements',) if atom[0] == 'true' or mentions(atom, lambda u: u[0] == 'elem') else ('typed',)
            if lab not in auto and (lab[0] == 'elements' or mentions(atom, lambda u: u[0] in ('pure', 'res') and u[1].rpartition('.')[2] in (
                    'type', 'isinstance')) or atom[0] == 'isinst'):
                return auto + (lab,)
        return auto

    def keep(self, ev, st, eng):
        if ev.kind == 'fault':
            return ('fault', ev.name)
        if ev.kind in ('call',) and ev.name in ('eval', 'exec', 'loads', 'load'):
            return ('unsafe', ev.name)
        if ev.kind == 'ret' and ev.name == 'literal_eval':
            return ('lit', ev.res)
        return None


def literal_rules(ctx):
    for q in ('common.parse_literal', 'common.parse_literal_tuple'):
        fi = ctx.repo.func(q)
        eng, outs = ctx.run(fi, LitPolicy(), LitMon())
        for o in outs:
            tr = o.st.auto
            ctx.ok('literal', fi.short)
            if any(e[0] == 'unsafe' for e in tr):
                viol(ctx, 'literal', fi, eng, o, 'a request is evaluated as code', 'eval')
            if any(e[0] == 'fault' for e in tr):
                if o.kind == 'return' or o.val[1] not in ('builtins.ValueError', 'builtins.UnicodeDecodeError'):
                    viol(ctx, 'literal', fi, eng, o, '%s is not reported as ValueError' % [e for e in tr if e[0] == 'fault'][-1][1],
                         [e for e in tr if e[0] == 'fault'][-1][1])
            elif o.kind == 'return':
                lit = [e[1] for e in tr if e[0] == 'lit']
                if not lit or o.val != lit[-1]:
                    viol(ctx, 'literal', fi, eng, o, 'the result is not the parsed literal', 'result')
                    continue
                typed = ('typed',) in tr and (q.endswith('parse_literal') or ('elements',) in tr)
                if not typed:
                    viol(ctx, 'literal', fi, eng, o, 'a literal is accepted without checking its type (or the types of its elements)', 'type')


class MissPolicy(FsPolicy):
    def raises(self, ev, eng):
        if ev.kind == 'getitem' and is_inodes(ev.recv) and ev.args and ev.args[0][0] == 'param':
            return ('builtins.KeyError',)
        return FsPolicy.raises(self, ev, eng)


def missing_inode(ctx, name):
    class M(FsMonitor):
        def label(self, ev, st, eng, known):
            if ev.kind == 'fault' and ev.name == 'KeyError':
                return ('nokey', ev.args[0])
            if ev.kind == 'getitem' and is_inodes(ev.recv) and ev.args[0][0] == 'param':
                return ('get', ev.args[0])
            return None
    fi, eng, outs = run_handler(ctx, name, MissPolicy, M(lambda e, tr: len(tr) < 6, latches=False))
    for o in outs:
        tr = trace(o)
        nk = [i for i, e in enumerate(tr) if e[0] == 'nokey']
        if not nk:
            continue
        # the event of the failing look-up itself precedes the fault; an earlier one succeeded
        key = tr[nk[0]][1]
        if tr[:nk[0]].count(('get', key)) != 1:
            continue
        ctx.ok('missing-inode', fi.short)
        if o.kind == 'raise' and o.val[1] == 'builtins.KeyError':
            viol(ctx, 'missing-inode', fi, eng, o, 'a request for a file that does not exist ends the file system', 'KeyError')


# -------------------------------------------------------------------------------------------
# F09

CONSUMERS = {'list', 'tuple', 'set', 'dict', 'sorted', 'frozenset', 'sum', 'max', 'min', 'len', 'any', 'all'}


def is_cursor(t):
    return isinstance(t, tuple) and len(t) > 1 and t[0] == 'res' and t[1].rpartition('.')[2] in ('query', 'query_typed', 'ResultSet', 'cursor')


def tx_kind(text):
    m = re.match(r'\s*(BEGIN|COMMIT|END|ROLLBACK|SAVEPOINT|RELEASE)\b', text or '', re.I)
    return m.group(1).upper() if m else None


def sql_text(ev):
    if ev.name in ('execute', 'rowid', 'query', 'get_list', 'executemany') and ev.args and is_const(ev.args[0]) and isinstance(ev.args[0][1], str):
        return ev.args[0][1]
    return None


class CursorMonitor(Monitor):
    '''auto: (open result sets, open batches). Remembers violations in self.bad.'''

    def __init__(self):
        self.bad = []
        self.opened = 0
        self.batches = 0

    def init(self):
        return (frozenset(), 0)

    def step(self, auto, ev, st, eng):
        cur, nb = auto
        k = ev.kind
        if k == 'ret' and ev.name in ('query', 'query_typed') and ev.res is not None and (recv_is(eng, ev, 'Connection') or recv_attr(ev, 'db', 'conn')):
            self.opened += 1
            return (cur | {ev.res}, nb)
        if k == 'exit' and ev.name == 'query' or k == 'exit' and ev.recv in cur:
            return (cur - {ev.recv}, nb)
        if k == 'call' and ev.name == 'close' and cur:
            return (cur - {x for x in cur if mentions(ev.recv, lambda u: u == x)}, nb)
        if k == 'call' and ev.name in CONSUMERS and cur:
            return (cur - {x for a in ev.args for x in cur if mentions(a, lambda u: u == x)}, nb)
        if k == 'loopexit' and cur:
            t = ev.recv if ev.recv is not None else ev.res
            return (cur - {x for x in cur if t is not None and mentions(t, lambda u: u == x)}, nb)
        if k == 'enter' and ev.name == 'batch':
            self.batches += 1
            if nb:
                self.bad.append(('overlap', ev, eng.describe_trace(st), 'an explicit transaction is started inside another one'))
            return (cur, nb + 1)
        if k == 'exit' and ev.name == 'batch':
            return (cur, max(0, nb - 1))
        if k == 'await' and cur:
            self.bad.append(('cursor', ev, eng.describe_trace(st), 'another task can run while a query result is being read'))
        return auto


class BatchMonitor(Monitor):
    def keep(self, ev, st, eng):
        if ev.kind in ('call', 'ret'):
            t = sql_text(ev)
            if t and tx_kind(t):
                return (ev.kind, tx_kind(t))
        if ev.kind == 'ret' and ev.name == 'acquire' and recv_attr(ev, '_batch_lock'):
            return ('lock',)
        if ev.kind == 'call' and ev.name == 'release' and recv_attr(ev, '_batch_lock'):
            return ('unlock',)
        if ev.kind == 'enter' and is_attr(ev.recv, '_batch_lock'):
            return ('lock',)
        if ev.kind == 'exit' and is_attr(ev.recv, '_batch_lock'):
            return ('unlock',)
        if ev.kind == 'setattr' and ev.name == 'in_tx':
            return ('in_tx', ev.args[0] if ev.args else None)
        if ev.kind == 'await':
            return ('await', )
        return None


class BatchPolicy(StdPolicy):
    inline_modules = {'s3ql.database'}
    opaque = frozenset({'Connection.checkpoint', 'Connection.execute'})
    os_raises = False

    def raises(self, ev, eng):
        if ev.name == 'checkpoint':
            return ('any',)
        if ev.name == 'execute':
            return ('any',)
        if ev.name == 'release':
            return ()
        return StdPolicy.raises(self, ev, eng)


MOUNTED = ('s3ql.fs', 's3ql.block_cache', 's3ql.inode_cache', 's3ql.mount', 's3ql.database', 's3ql.multi_lock')


@check('F09', explanation='''Typestate of query results (open from the call until consumed, closed or left by its loop) on every path of every
asynchronous function of the mounted file system: no await may happen while one is open. Transaction statements occur only in the batch manager,
which holds a lock from before BEGIN until after COMMIT on every path; functions run in worker threads do not reach the database.''')
def f09(ctx):
    ctx.rule('cursor', 'no task switch while a query result is being read')
    ctx.rule('overlap', 'explicit transactions never overlap or nest')
    ctx.rule('tx-owner', 'transactions are only controlled by the batch manager')
    ctx.rule('commit', 'a transaction is committed on every way out and its lock released exactly once')
    ctx.rule('thread', 'worker threads do not access the database')
    seen = []
    for m in methods_of(ctx.repo, OPS, known_only=False):
        if not m.is_async:
            continue
        mon = CursorMonitor()
        fi, eng, outs = run_handler(ctx, m, FsPolicy, mon)
        seen.append((fi, mon))
    for q in ('block_cache.BlockCache', 'database.Connection'):
        for m in methods_of(ctx.repo, q, known_only=False):
            if not m.is_async:
                continue
            mon = CursorMonitor()
            eng, outs = ctx.run(m, StdPolicy(), mon)
            seen.append((m, mon))
    for mn in ('s3ql.mount', 's3ql.database'):
        mod = ctx.repo.modules[mn]
        for m in all_funcs_in(mod):
            if m.is_async and m.cls is None or m.cls is not None and m.cls.name in ('CommitTask', 'MetadataUploadTask') and m.is_async:
                if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('query', 'query_typed')
                           for n in ast.walk(m.node)):
                    continue
                mon = CursorMonitor()
                ctx.run(m, StdPolicy(), mon)
                seen.append((m, mon))
    for fi, mon in seen:
        if mon.opened:
            ctx.ok('cursor', fi.short)
        if mon.batches:
            ctx.ok('overlap', fi.short)
        done = set()
        for rule, ev, tr, msg in mon.bad:
            if (rule, ev.loc) in done:
                continue
            done.add((rule, ev.loc))
            ctx.violate(rule, '%s: %s' % (fi.qual, rule), '%s: %s' % (fi.short, msg), ev.loc, tr)
    # transaction statements
    mgr = ctx.repo.cls('database.BatchedTransactionManager')
    entry = {m.name: m for m in mgr.methods.values()}
    owner_nodes = set()
    for m in entry.values():
        eng, outs = ctx.run(m, BatchPolicy(), BatchMonitor())
        for f in eng.stats['functions']:
            owner_nodes.add(f)
        batch_rules(ctx, m, eng, outs)
    owners = {m.qual for m in mgr.methods.values()}
    for mn in MOUNTED:
        for fn in all_funcs_in(ctx.repo.modules[mn]):
            for n in ast.walk(fn.node):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and tx_kind(n.value) and re.match(
                        r'\s*(BEGIN|COMMIT|END|ROLLBACK|SAVEPOINT|RELEASE)(\s+(DEFERRED|IMMEDIATE|EXCLUSIVE|TRANSACTION|TO|\w+))*\s*;?\s*$', n.value):
                    call = parents(fn).get(n)
                    if not isinstance(call, ast.Call):
                        continue
                    ctx.ok('tx-owner', '%s: %s' % (fn.short, n.value))
                    if fn.qual in owners or any(str(f).endswith(fn.qual) for f in owner_nodes):
                        if tx_kind(n.value) == 'ROLLBACK':
                            ctx.violate('tx-owner', '%s rolls back' % fn.qual, 'changes of other tasks are rolled back', fn.loc(n))
                        continue
                    if second_connection(fn, call):
                        continue
                    ctx.violate('tx-owner', '%s: %s' % (fn.qual, n.value), 'a transaction of the shared connection is controlled outside of '
                                'the batch manager', fn.loc(n))
            if mn != 's3ql.database':
                for n in walk_own(fn.node):
                    if isinstance(n, ast.Attribute) and n.attr in ('start_batch', 'finish_batch') and isinstance(parents(fn).get(n), ast.Call):
                        if not isinstance(parents(fn).get(parents(fn).get(n)), ast.Await):
                            ctx.violate('commit', '%s %s not awaited' % (fn.qual, n.attr), 'the batch operation is not awaited', fn.loc(n))
    # helpers for transactions used elsewhere (manager not entered as a context manager)
    for mn in MOUNTED:
        for fn in all_funcs_in(ctx.repo.modules[mn]):
            for n in walk_own(fn.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'batch' or isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Name) and n.func.id == 'BatchedTransactionManager':
                    up = parents(fn).get(n)
                    if isinstance(up, (ast.withitem, ast.Return)) or isinstance(up, ast.Call) and ast.unparse(up.func).endswith('enter_async_context'):
                        continue
                    if isinstance(up, ast.Assign) and isinstance(up.targets[0], ast.Name) and any(
                            isinstance(x, ast.withitem) and isinstance(x.context_expr, ast.Name) and x.context_expr.id == up.targets[0].id
                            for x in ast.walk(fn.node)):
                        continue
                    ctx.violate('commit', '%s batch' % fn.qual, 'the transaction manager is not used as a context manager', fn.loc(n))
    thread_rules(ctx)
    ctx.floor('cursor', 3)
    ctx.floor('overlap', 3)
    ctx.floor('commit', 3)
    ctx.floor('tx-owner', 3)
    ctx.floor('thread', 2)


def second_connection(fn, call):
    '''Is the statement executed on a connection created in the same function (not the shared one)?'''
    f = call.func
    if not isinstance(f, ast.Attribute):
        return False
    base = f.value
    seen = set()
    while True:
        if isinstance(base, ast.Call) and isinstance(base.func, ast.Attribute) and base.func.attr == 'cursor':
            base = base.func.value
            continue
        if isinstance(base, ast.Call):
            return ast.unparse(base.func).endswith(('apsw.Connection', 'Connection'))
        if isinstance(base, ast.Name) and base.id not in seen:
            seen.add(base.id)
            v = [x.value for x in ast.walk(fn.node) if isinstance(x, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == base.id for t in x.targets)]
            if len(v) == 1:
                base = v[0]
                continue
        return False


def batch_rules(ctx, m, eng, outs):
    for o in outs:
        tr = o.st.auto
        held = m.name in ('__aexit__', 'start_batch', 'finish_batch')
        begun = False
        open_tx = m.name == 'finish_batch'
        known = open_tx
        for e in tr:
            if e == ('ret', 'BEGIN'):
                open_tx = known = True
            elif e == ('ret', 'COMMIT'):
                open_tx = False
            elif e == ('in_tx', FALSE):
                ctx.ok('commit', '%s state' % m.short)
                if known and open_tx:
                    viol(ctx, 'commit', m, eng, o, 'the transaction counts as committed before it is', 'in_tx early')
            elif e[0] == 'await' and m.name in ('start_batch', 'finish_batch') and open_tx:
                viol(ctx, 'commit', m, eng, o, 'waits for other tasks while the transaction is open', 'wait')
            elif e[0] == 'await':
                ctx.ok('commit', '%s wait' % m.short)
            if e[0] == 'lock':
                held = True
            elif e[0] == 'unlock':
                if not held:
                    viol(ctx, 'commit', m, eng, o, 'the transaction lock is released twice', 'double release')
                held = False
            elif e[0] == 'call' and e[1] in ('BEGIN', 'COMMIT'):
                ctx.ok('commit', '%s %s' % (m.short, e[1]))
                if not held:
                    viol(ctx, 'overlap', m, eng, o, 'a transaction is %s without holding the transaction lock' % (
                        'started' if e[1] == 'BEGIN' else 'committed'), e[1])
            elif e[0] == 'ret' and e[1] == 'BEGIN':
                begun = True
        if m.name == '__aenter__':
            ctx.ok('overlap', m.short)
            if o.kind == 'return' and not (held and begun):
                viol(ctx, 'overlap', m, eng, o, 'the batch starts without lock or transaction', 'enter')
            if o.kind == 'raise' and held:
                viol(ctx, 'commit', m, eng, o, 'the transaction lock stays locked when the transaction cannot be started', 'enter leak')
            if o.kind == 'raise' and begun:
                viol(ctx, 'commit', m, eng, o, 'the transaction stays open when starting the batch fails', 'enter open')
        elif m.name == '__aexit__':
            ctx.ok('commit', m.short)
            if held:
                viol(ctx, 'commit', m, eng, o, 'the transaction lock is not released', 'exit lock')
            intx = o.st.truth(('true', ('attr', ('self', m.qual), 'in_tx')))
            if ('call', 'COMMIT') not in tr and o.kind == 'return' and not assumed_false(o.st, 'in_tx'):
                viol(ctx, 'commit', m, eng, o, 'the transaction is not committed', 'exit commit')
        elif m.name == 'start_batch' and o.kind == 'return':
            if begun and ('in_tx', TRUE) not in tr:
                viol(ctx, 'commit', m, eng, o, 'the manager does not know that the transaction is open', 'in_tx')
            i = [j for j, e in enumerate(tr) if e == ('in_tx', TRUE)]
            if not begun:
                viol(ctx, 'commit', m, eng, o, 'no transaction is started', 'begin')
        elif m.name == 'finish_batch':
            if o.kind == 'return' and ('ret', 'COMMIT') not in tr:
                viol(ctx, 'commit', m, eng, o, 'the batch is not committed', 'finish')
            if ('ret', 'COMMIT') in tr and ('in_tx', FALSE) not in tr:
                viol(ctx, 'commit', m, eng, o, 'the manager does not know that the transaction was committed', 'in_tx false')


def assumed_false(st, attr):
    return any(a[0] == 'true' and v is False and is_attr(a[1], attr) for a, v in st.facts.items())


def thread_rules(ctx):
    names = {}
    for mod in ctx.repo.modules.values():
        for fn in all_funcs_in(mod):
            names.setdefault(fn.name, []).append(fn)
    DBCALLS = {'execute', 'rowid', 'query', 'query_typed', 'get_val', 'get_row', 'get_list', 'has_val', 'get_int_val', 'get_row_typed',
               'get_str_val', 'get_bytes_val', 'get_inode_val', 'changes', 'last_rowid', 'sync_checkpoint'}

    COMMON = {'flush', 'close', 'read', 'write', 'seek', 'tell', 'truncate', 'update', 'append', 'pop', 'get', 'remove', 'fsync', 'copy',
              'release', 'acquire', 'values', 'items', 'keys', 'open', 'send', 'format', 'split', 'join', 'add', 'clear'}

    def foreign(f, mod):
        if isinstance(f, ast.Attribute):
            b = f.value
            if isinstance(b, ast.Name) and b.id in ('self', 'cls'):
                return False
            if isinstance(b, ast.Name) and b.id in mod.imports and not str(mod.imports[b.id]).startswith('s3ql'):
                return True
            return f.attr in COMMON
        return False

    def touches(node, mod, depth, seen):
        for n in ast.walk(node):
            if not isinstance(n, ast.Call):
                continue
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            if isinstance(f, ast.Attribute) and nm in DBCALLS and re.search(r'(^|\.)_?(db|conn|cur|second_cur|cursor\(\))$', ast.unparse(f.value)):
                return ast.unparse(f)
            if nm and depth and not foreign(f, mod):
                for g in names.get(nm, ()):
                    if g.qual in seen or len(names[nm]) > 3 or g.mod.name not in MOUNTED and g.mod is not mod:
                        continue
                    seen.add(g.qual)
                    r = touches(g.node, g.mod, depth - 1, seen)
                    if r:
                        return '%s -> %s' % (g.short, r)
        return None
    for mn in MOUNTED:
        mod = ctx.repo.modules[mn]
        for fn in all_funcs_in(mod):
            for n in ast.walk(fn.node):
                if not (isinstance(n, ast.Call) and ast.unparse(n.func).endswith(('to_thread.run_sync', 'run_in_executor', 'threading.Thread',
                                                                                  'start_new_thread')) or isinstance(n, ast.Call)
                        and isinstance(n.func, ast.Name) and n.func.id in ('Thread', 'ExceptionStoringThread', 'AsyncFn')):
                    continue
                ctx.ok('thread', '%s line %s' % (fn.short, ast.unparse(n)[:60]))
                for a in list(n.args) + [k.value for k in n.keywords]:
                    r = None
                    if isinstance(a, (ast.Name, ast.Attribute)):
                        nm = a.attr if isinstance(a, ast.Attribute) else a.id
                        if isinstance(a, ast.Attribute) and nm in DBCALLS and re.search(r'(^|\.)_?(db|conn)$', ast.unparse(a.value)):
                            r = ast.unparse(a)
                        for g in () if foreign(a, mod) else names.get(nm, ()):
                            r = r or touches(g.node, g.mod, 4, {g.qual})
                        for x in ast.walk(fn.node):
                            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x.name == nm and x is not fn.node:
                                r = r or touches(x, fn.mod, 4, set())
                    elif isinstance(a, ast.Lambda):
                        r = touches(a, fn.mod, 4, set())
                    elif isinstance(a, ast.Call):
                        r = touches(a, fn.mod, 4, set())
                        for x in a.args:
                            nm = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else None
                            for g in names.get(nm, ()):
                                r = r or touches(g.node, g.mod, 4, {g.qual})
                    if r:
                        ctx.violate('thread', '%s: %s' % (fn.qual, ast.unparse(a)), 'a worker thread accesses the database (%s)' % r, fn.loc(n))


# -------------------------------------------------------------------------------------------
# F10


class DirMonitor(FsMonitor):
    def label(self, ev, st, eng, known):
        if ev.kind in ('iter', 'loopexit'):
            t = ev.recv if ev.recv is not None else ev.res
            if t is not None and mentions(t, lambda u: u[0] == 'res' and u[1].rpartition('.')[2] in ('query', 'query_typed', 'get_list')):
                return (ev.kind, t)
            return None
        lab = FsMonitor.label(self, ev, st, eng, known)
        if lab is not None and lab[0] in ('sql', 'reply', 'open'):
            return lab
        return None


def qindex(text, pat):
    '''Number of the parameter in the part of a statement matched by pat (which ends in the question mark).'''
    m = re.search(pat, text, re.I)
    return text[:m.end() - 1].count('?') if m else None


def row_col(t, res):
    '''Column number of a term that is an element of a row of the result set, or None.'''
    t = canon(t)
    if t[0] == 'item' and is_const(t[2]) and mentions(t[1], lambda u: u == canon(res)):
        return t[2][1]
    return None


@check('F10', explanation='''On every path of the directory listing: the query selects the entries of the directory strictly after a position in
the order of that position; the position given to the kernel and the one resumed from are inverse to each other (equality of linear terms);
every row read is offered to the kernel with the attributes of its own file, nothing is offered after a refusal, and only accepted entries are
counted.''')
def f10(ctx):
    ctx.rule('order', 'entries are listed strictly after the given position, in the order of the position')
    ctx.rule('position', 'the position given out for an entry is the one the listing resumes after')
    ctx.rule('all-rows', 'every row is offered to the kernel; the listing ends only after the last one or a refusal')
    ctx.rule('entry', 'name and attributes offered belong to the same row')
    ctx.rule('count', 'exactly the accepted entries are counted as referenced')
    fi, eng, outs = run_handler(ctx, 'readdir', FsPolicy, DirMonitor(latches=False))
    ps = fi.params()
    fh, off = ('param', ps[1], fi.qual), ('param', ps[2], fi.qual)
    for o in outs:
        if o.kind != 'return':
            continue
        tr = trace(o)
        reps = [e for e in tr if e[0] == 'reply']
        sqls = [e for e in tr if e[0] == 'sql' and e[1] == 'select' and 'contents' in str(e[2])]
        if not sqls:
            viol(ctx, 'order', fi, eng, o, 'a listing ends without reading the directory', 'no query')
            continue
        if len(sqls) > 1:
            viol(ctx, 'order', fi, eng, o, 'the directory is queried more than once', 'two queries')
            continue
        q = sqls[0]
        text, params, sel = q[10], q[7], q[6]
        cols = [c.rpartition('.')[2].lower() for c in (sel if isinstance(sel, (tuple, list)) else [sel]) if isinstance(c, str)]
        cols = select_cols(text)
        ctx.ok('order', fi.short)
        m = re.search(r'order by\s+(?:\w+\.)?(\w+)(?:\s+asc)?\s*($|limit\b|;)', text, re.I)
        key = m.group(1) if m else None
        gt = re.search(r'(?:\w+\.)?(\w+)\s*>\s*\?', text)
        pk = qindex(text, r'parent_inode\s*=\s*\?')
        gk = qindex(text, r'(?:\w+\.)?(\w+)\s*>\s*\?')
        plist = params[1:] if params and params[0] == 'tuple' else params
        if key is None or gt is None or gt.group(1) != key or key not in cols:
            viol(ctx, 'order', fi, eng, o, 'entries are not listed strictly after the position in the order of the position', 'order')
            continue
        if key not in ('name_id', 'rowid', 'id'):
            viol(ctx, 'order', fi, eng, o, 'the position of an entry is not a stable unique number (%s)' % key, 'key')
        if re.search(r'\boffset\b', text, re.I):
            viol(ctx, 'order', fi, eng, o, 'the listing skips entries', 'offset')
        extra = extra_conds(text)
        if extra:
            viol(ctx, 'order', fi, eng, o, 'entries are excluded from the listing: %s' % extra, 'extra')
        if pk is None or canon(plist[pk]) != fh:
            viol(ctx, 'order', fi, eng, o, 'the listing is not restricted to the directory', 'directory')
        P = canon(plist[gk])
        zero = o.st.truth(('eq',) + tuple(sorted((off, const(0)), key=repr))) or any(
            a[0] == 'eq' and v is True and off in a[1:] and const(0) in a[1:] for a, v in o.st.facts.items())
        c1 = None
        if is_const(P) and isinstance(P[1], int):
            ctx.ok('position', 'start')
            if not zero:
                viol(ctx, 'position', fi, eng, o, 'the listing does not resume at the requested position', 'resume')
            elif P[1] > 0:
                viol(ctx, 'position', fi, eng, o, 'the listing does not start at the first entry', 'start')
            # no position given out may be the one that means the beginning
        else:
            c1 = lin_diff(P, off)
            if c1 is None:
                viol(ctx, 'position', fi, eng, o, 'the listing resumes at %s' % show(P), 'resume')
                continue
            if zero and c1 > 0:
                viol(ctx, 'position', fi, eng, o, 'the listing does not start at the first entry', 'start')
        res = q[8] if len(q) > 8 else None
        raw = q[12] if len(q) > 12 else res
        iters = [e for e in tr if e[0] == 'iter']
        ctx.ok('all-rows', fi.short)
        if len(iters) != len(reps):
            viol(ctx, 'all-rows', fi, eng, o, 'a row of the directory is not offered to the kernel (or offered twice)', 'rows')
            continue
        accepted = []
        refused = False
        for e in reps:
            if refused:
                viol(ctx, 'all-rows', fi, eng, o, 'entries are offered after the kernel refused one', 'after refusal')
            args = e[1]
            if len(args) < 4:
                viol(ctx, 'entry', fi, eng, o, 'the reply has too few arguments', 'args')
                continue
            ctx.ok('entry', fi.short)
            nc, pos = None, args[3]
            rows = {u for u in subterms(pos) if u[0] == 'item' and is_const(u[2]) and u[1][0] == 'elem'}
            if len(rows) != 1:
                viol(ctx, 'position', fi, eng, o, 'the position given out does not come from the row', 'position')
                continue
            (r,) = rows
            c2 = lin_diff(pos, r)
            row = r[1]
            if not (isinstance(r[2][1], int) and r[2][1] < len(cols) and cols[r[2][1]] == key) or c2 is None:
                viol(ctx, 'position', fi, eng, o, 'the position given out is not derived from the position column', 'column')
                continue
            ctx.ok('position', fi.short)
            if c1 is not None and c1 + c2 != 0:
                viol(ctx, 'position', fi, eng, o, 'the listing resumes at the position minus %d but positions are given out as number plus %d' % (
                    -c1, c2), 'inverse')
            if c2 < 0:
                viol(ctx, 'position', fi, eng, o, 'a position may be the one that means the beginning', 'zero')
            nm = args[1]
            if not (nm[0] == 'item' and nm[1] == row and is_const(nm[2]) and cols[nm[2][1]:nm[2][1] + 1] == ['name']):
                viol(ctx, 'entry', fi, eng, o, 'the name offered is not the one of the row', 'name')
            inos = {u for u in subterms(args[2]) if u[0] == 'item' and u[1] == row and is_const(u[2])}
            if not inos or any(cols[u[2][1]:u[2][1] + 1] != ['inode'] for u in inos) or not mentions(args[2], is_inode_obj_term):
                viol(ctx, 'entry', fi, eng, o, 'the attributes offered are not the ones of the entry', 'attributes')
            val = [v for a, v in o.st.facts.items() if a[0] == 'true' and canon(a[1]) == canon(e[2])]
            accepted.append((inos, e))
        # counting
        i = 0
        order = [e for e in tr if e[0] in ('reply', 'open')]
        cnt = 0
        for j, e in enumerate(order):
            if e[0] == 'open':
                prev = order[j - 1] if j else None
                ctx.ok('count', fi.short)
                if prev is None or prev[0] != 'reply' or not mentions(prev[1][2], lambda u: u == canon(e[1])) or e[2] not in (1, const(1)):
                    viol(ctx, 'count', fi, eng, o, 'something other than the accepted entry is counted', 'count')
        exhausted = any(e[0] == 'loopexit' for e in tr)
        last_counted = bool(order) and order[-1][0] == 'open'
        if not exhausted and not reps:
            viol(ctx, 'all-rows', fi, eng, o, 'the listing ends before the first entry', 'early')
        if exhausted and reps and not last_counted:
            viol(ctx, 'count', fi, eng, o, 'an accepted entry is not counted', 'last')
        for a, b in zip(order, order[1:]):
            if a[0] == 'reply' and b[0] == 'reply':
                viol(ctx, 'count', fi, eng, o, 'an accepted entry is not counted', 'missing')
    for r in ('order', 'position', 'all-rows', 'entry', 'count'):
        ctx.floor(r)


def is_inode_obj_term(u):
    return u[0] in ('item', 'res') and inode_key(u) is not None


def select_cols(text):
    m = re.match(r'\s*select\s+(.*?)\s+from\b', text, re.I)
    out = []
    for c in (m.group(1).split(',') if m else []):
        c = c.strip()
        a = re.search(r'\bas\s+(\w+)$', c, re.I)
        out.append((a.group(1) if a else c.rpartition('.')[2]).lower())
    return out


def extra_conds(text):
    '''Conditions of the WHERE clause other than the directory, the position and joins.'''
    m = re.search(r'\bwhere\b(.*?)(\border by\b|\blimit\b|\bgroup by\b|$)', text, re.I)
    bad = []
    for c in re.split(r'\band\b', m.group(1), flags=re.I) if m else []:
        c = c.strip()
        if re.fullmatch(r'(?:\w+\.)?parent_inode\s*=\s*\?', c) or re.fullmatch(r'(?:\w+\.)?\w+\s*>\s*\?', c) or re.fullmatch(
                r'\w+\.\w+\s*=\s*\w+\.\w+', c):
            continue
        bad.append(c)
    return bad


# -------------------------------------------------------------------------------------------
# F11


class TimePolicy(FsPolicy):
    opaque = FsPolicy.opaque


def is_now(t):
    t = canon(t)
    return mentions(t, lambda u: u[0] == 'res' and u[1].rpartition('.')[2] in ('time_ns',)) and t[0] in ('res', 'pure')


def time_want(e, tr):
    if e[0] == 'set':
        return e[2] in ('refcount', 'mtime_ns', 'ctime_ns', 'size', 'mode', 'uid', 'gid', 'rdev')
    if e[0] == 'sql':
        return e[1] in MUT_SQL and e[2] in ('contents', 'ext_attributes')
    return e[0] in ('create', 'entry')


def dirs_of(e):
    '''Directory keys whose contents an SQL statement on the entries changes.'''
    out = [v for n, v, tk in e[4] if n == 'parent_inode'] + [v for n, v in e[5] if n == 'parent_inode']
    return [canon(x) for x in out if isinstance(x, tuple)]


@check('F11', explanation='''For every path of every request handler that ends successfully: each directory whose entries a statement on that path
changes, each file whose link count, size, mode or owner is set, whose block is modified, or whose extended attributes are changed, also gets the
required times assigned from the current time on the same path.''')
def f11(ctx):
    ctx.rule('directory', 'modification and change time of every directory whose entries change')
    ctx.rule('links', 'change time of every file whose link count changes')
    ctx.rule('data', 'modification and change time of written files')
    ctx.rule('attributes', 'change time of files whose attributes or extended attributes change')
    ctx.rule('create', 'all times of new files')
    ctx.rule('current', 'the times are set from the clock (or the request)')
    ctx.rule('truncate', 'opening a file for truncation sets size and modification time')
    for fi in handlers(ctx):
        if fi.name in ('copy_tree', 'lock_tree', 'extstat'):
            continue
        fi, eng, outs = run_handler(ctx, fi, FsPolicy, FsMonitor(time_want, latches=False))
        for o in outs:
            if o.kind != 'return' or odd_path(o):
                continue
            tr = trace(o)
            times = {}
            for e in tr:
                if e[0] == 'set' and e[2] in ('mtime_ns', 'ctime_ns'):
                    times.setdefault(e[1], set()).add(e[2])
                    ctx.ok('current', fi.short)
                    ok = is_now(e[4]) or fi.name == 'setattr' and e[2] == 'mtime_ns' and mentions(e[4], lambda u: u[0] == 'param')
                    if fi.name == 'open' and e[2] == 'mtime_ns':
                        ok = True  # see the truncate rule
                    if not ok:
                        viol(ctx, 'current', fi, eng, o, 'the %s is not set from the clock' % e[2], '%s value' % e[2])
            for e in tr:
                if e[0] == 'sql' and e[2] == 'contents':
                    ds = dirs_of(e)
                    for d in ds:
                        ctx.ok('directory', '%s: %s' % (fi.short, show(d)))
                        miss = {'mtime_ns', 'ctime_ns'} - times.get(d, set())
                        if miss:
                            viol(ctx, 'directory', fi, eng, o, 'the entries of %s change but its %s is not updated' % (show(d), ', '.join(sorted(miss))),
                                 '%s %s' % (show(d), ', '.join(sorted(miss))))
                elif e[0] == 'sql' and e[2] == 'ext_attributes' and 'xattr' in fi.name:
                    ks = [v for n, v, tk in e[4] if n == 'inode'] + [v for n, v in e[5] if n == 'inode']
                    for k in ks:
                        ctx.ok('attributes', '%s: extended attributes' % fi.short)
                        if 'ctime_ns' not in times.get(canon(k), set()):
                            viol(ctx, 'attributes', fi, eng, o, 'extended attributes change without an update of the change time', 'xattr')
                elif e[0] == 'set' and e[2] == 'refcount':
                    ctx.ok('links', '%s: %s' % (fi.short, show(e[1])))
                    if 'ctime_ns' not in times.get(e[1], set()):
                        viol(ctx, 'links', fi, eng, o, 'the link count of %s changes without an update of its change time' % show(e[1]),
                             'links %s' % show(e[1]))
                elif e[0] == 'set' and e[2] in ('size', 'mode', 'uid', 'gid', 'rdev', 'mtime_ns'):
                    ctx.ok('attributes', '%s: %s' % (fi.short, e[2]))
                    if 'ctime_ns' not in times.get(e[1], set()):
                        viol(ctx, 'attributes', fi, eng, o, 'the %s of %s changes without an update of its change time' % (e[2], show(e[1])),
                             '%s %s' % (e[2], show(e[1])))
                elif e[0] == 'entry' and e[1] == 'write':
                    ctx.ok('data', fi.short)
                    if not any({'mtime_ns', 'ctime_ns'} <= t for t in times.values()):
                        viol(ctx, 'data', fi, eng, o, 'data is written without an update of modification and change time', 'write')
                elif e[0] == 'create':
                    kw = dict(e[2])
                    ctx.ok('create', fi.short)
                    for n in ('atime_ns', 'mtime_ns', 'ctime_ns'):
                        if n not in kw or not is_now(kw[n]):
                            viol(ctx, 'create', fi, eng, o, 'a new file is created without its %s' % n, 'create %s' % n)
    trunc_fields(ctx)
    ctx.floor('directory', 10)
    ctx.floor('links', 6)
    ctx.floor('data', 1)
    ctx.floor('attributes', 8)
    ctx.floor('create', 3)
    ctx.floor('truncate', 3)


class TruncMonitor(FsMonitor):
    def label(self, ev, st, eng, known):
        if ev.kind == 'call' and ev.name == 'setattr' and ev.target is not None and ev.target.qual.endswith('Operations.setattr'):
            a = ev.args[1]
            return ('setattr', canon(ev.args[0]), canon(attr_val(st, a, 'st_size')), canon(attr_val(st, a, 'st_mtime_ns')), canon(ev.args[2]))
        return None


class TruncPolicy(FsPolicy):
    opaque = FsPolicy.opaque | {'Operations.setattr', 'Operations.getattr'}


def trunc_fields(ctx):
    '''open(O_TRUNC) asks setattr for size 0 and the current modification time; the fields object lets both through.'''
    fi, eng, outs = run_handler(ctx, 'open', TruncPolicy, TruncMonitor(latches=False))
    n = 0
    for o in outs:
        for e in trace(o):
            n += 1
            ctx.ok('truncate', fi.short)
            if e[2] != const(0):
                viol(ctx, 'truncate', fi, eng, o, 'truncation does not set the size to zero', 'size')
            if not is_now(e[3]):
                viol(ctx, 'truncate', fi, eng, o, 'truncation does not set the modification time', 'mtime')
    ga = ctx.repo.func('fs._TruncSetattrFieldsC.__getattr__', optional=True)
    if ga is None:
        return
    nm = ga.params()[1]
    for want in ('update_size', 'update_mtime', 'update_mode', 'update_uid', 'update_gid', 'update_atime'):
        eng, outs = ctx.run(ga, StdPolicy(), Monitor(), bind={nm: const(want)})
        ctx.ok('truncate', want)
        for o in outs:
            v = o.st.truth(('true', o.val)) if o.kind == 'return' else None
            if v is not None and v != (want in ('update_size', 'update_mtime')):
                viol(ctx, 'truncate', ga, eng, o, 'truncation %s %s' % ('changes' if v else 'does not change', want[7:]), want)


# -------------------------------------------------------------------------------------------
# F12


class TreePolicy(FsPolicy):
    max_states = 200


class TreeMonitor(FsMonitor):
    def latch(self, known, st):
        add = set()
        for a, v in st.facts.items():
            if a[0] == 'true' and a[1][0] in ('res', 'pure'):
                add.add(('truth', a[1], v))
            elif a[0] == 'eq' and v is True and any(is_const(x) and cval(x) == 1 for x in a[1:]):
                for x in a[1:]:
                    if is_attr(x, 'refcount') and is_inode_obj(x[1]):
                        add.add(('single', inode_key(x[1])))
            elif a[0] == 'lt' and v is False and is_const(a[1]) and cval(a[1]) == 1 and is_attr(a[2], 'refcount'):
                add.add(('single', inode_key(a[2][1])))
            elif a[0] == 'in' and v is False and is_const(a[1]) is False:
                add.add(('notin', canon(a[1]), a[2]))
        known = known | add if add - known else known
        return FsMonitor.latch(self, known, st)

    def label(self, ev, st, eng, known):
        if ev.kind == 'call' and ev.name in ('append', 'appendleft') and ev.recv is not None and ev.args:
            return ('push', ev.recv, canon(ev.args[0]), known)
        if ev.kind == 'iter':
            return ('iter', canon(ev.recv), canon(ev.res), left_out(st) if mentions(ev.recv, lambda t: is_attr(t, 'cache')) else ())
        if ev.kind == 'loopexit':
            return ('loopexit', canon(ev.res), None)
        if ev.kind == 'setitem' and not is_attr(ev.recv, 'open_inodes'):
            return ('map', ev.recv, canon(ev.args[0]), canon(ev.args[1]))
        lab = FsMonitor.label(self, ev, st, eng, known)
        if lab is None and ev.kind == 'ret' and ev.name in ('pop', 'popleft') and ev.recv is not None:
            return ('pop', ev.recv, ev.res)
        return lab


def left_out(st):
    '''Conditions on cached blocks, other than being modified and what the database says.'''
    r = []
    for a, v in st.facts.items():
        if any(mentions(x, lambda t: t[0] == 'elem' and mentions(t[1], lambda u: is_attr(u, 'cache'))) for x in a[1:] if isinstance(x, tuple)):
            if any(mentions(x, lambda t: t[0] == 'res' and '.database.' in t[1]) for x in a[1:] if isinstance(x, tuple)):
                continue
            if a[0] == 'true' and is_attr(a[1], 'dirty') and v is True:
                continue
            r.append(a)
    return tuple(r)


def flat_insert(e):
    '''(table, {column: term or column name}) of an INSERT label.'''
    out = {}
    for c, term, toks in e[4]:
        if term is not None and term[0] != 'sqlexpr':
            out[c.lower()] = term
        else:
            out[c.lower()] = toks[0] if len(toks) == 1 else toks[-1] if len(toks) == 3 and toks[1] == '.' else toks
    return out


def nonpos(t):
    return is_const(t) and isinstance(cval(t), int) and cval(t) <= 0


@check('F12', explanation='''Path analysis of the tree operations: for every directory entry that copy_tree inserts below a new directory, the
path must show a new file carrying every attribute column of the source, whole-row copies of every per-file table of the
schema, a recursion into the copy of each non-empty directory, a mapping for files with several links, and a resumption
point wherever the listing is left early; modified blocks are flushed before the listing. The rules for name, link and block
counts (F02, F03, B05) are applied to these operations, too.''')
def f12(ctx):
    from sa import schema
    ctx.rule('copy-attributes', 'a copied file carries every attribute of its source and a link count of one')
    ctx.rule('copy-rows', 'every row that belongs to the source file is copied completely to the new file')
    ctx.rule('copy-links', 'a source file with several links is copied once and its further links count on the copy')
    ctx.rule('copy-recursion', 'the contents of every directory found are copied below the copy of that directory')
    ctx.rule('copy-resume', 'a listing left early is continued after the last entry copied')
    ctx.rule('copy-flush', 'modified blocks of the files are flushed before their block links are copied')
    ctx.rule('copy-visible', 'the replicated entries appear below the target with the attributes of the source')
    ctx.rule('tree-gates', 'tree operations are refused in read-only state; removing is refused below an immutable directory')
    tabs = schema.tables(ctx.repo)
    per_inode = {n: t for n, t in tabs.items() if 'inode' in t.cols and n not in ('contents',)}
    need = set(tabs['inodes'].cols) - {'id', 'refcount', 'locked'}
    fi, eng, outs = run_handler(ctx, 'copy_tree', TreePolicy, TreeMonitor())
    src0, dst0 = (('param', p, fi.qual) for p in [a.arg for a in fi.node.args.args][1:3])
    for o in outs:
        if odd_path(o):
            continue
        tr = trace(o)
        if o.kind == 'return':
            copy_visible(ctx, fi, eng, o, tr, src0, dst0)
        copy_entries(ctx, fi, eng, o, tr, per_inode, need)
        copy_walk(ctx, fi, eng, o, tr, src0)
    for name in ('copy_tree', 'lock_tree', 'remove_tree'):
        f, e2, os = run_handler(ctx, name, monitor=FsMonitor(lambda e, tr: is_mutation(e) and not tr))
        for o in os:
            first = next((e for e in trace(o) if is_mutation(e)), None)
            if first is None:
                continue
            ctx.ok('tree-gates', f.short)
            known = mut_known(first)
            if 'failsafe' not in known:
                viol(ctx, 'tree-gates', f, e2, o, 'the tree is changed without checking the emergency read-only state', 'failsafe')
            if name == 'remove_tree' and not any(isinstance(x, tuple) and x[0] == 'unlocked' for x in known):
                viol(ctx, 'tree-gates', f, e2, o, 'a tree is removed without checking that its parent is not immutable', 'lock')
    from . import cache2
    cache2.start_flush(ctx, 'copy-flush')
    for r in ('copy-attributes', 'copy-rows', 'copy-recursion', 'copy-resume', 'copy-flush', 'copy-visible', 'tree-gates'):
        ctx.floor(r)
    tree = ('copy_tree', 'remove_tree', 'lock_tree')
    ctx.include('F02', ('names-balance', 'names-atomic'), lambda c: any(t in c for t in tree))
    ctx.include('F03', ('links-balance',), lambda c: any(t in c for t in tree))
    ctx.include('B05', ('copy-balance',))


def copy_visible(ctx, fi, eng, o, tr, src0, dst0):
    ctx.ok('copy-visible', fi.short)
    moved = [e for e in tr if e[0] == 'sql' and e[1] == 'update' and e[2] == 'contents' and [c[0] for c in e[4]] == ['parent_inode']]
    if len(moved) != 1 or moved[0][4][0][1] != dst0 or len(moved[0][5]) != 1 or moved[0][5][0][0] != 'parent_inode':
        viol(ctx, 'copy-visible', fi, eng, o, 'a path ends without moving the copied entries to the target directory', 'move')
    elif not any(e[0] == 'create' and mentions(moved[0][5][0][1], lambda t: t == e[1]) for e in tr):
        viol(ctx, 'copy-visible', fi, eng, o, 'the entries moved to the target are not those of the copy', 'move-from')
    elif any(e[0] == 'sql' and e[2] == 'contents' and e[1] == 'insert' for e in tr[tr.index(moved[0]):]):
        viol(ctx, 'copy-visible', fi, eng, o, 'entries are still copied after the copy was moved to the target', 'move-order')
    for c in tr:
        if c[0] == 'create' and dict(c[2]).get('refcount') == const(0):
            if not any(e[0] == 'delinode' and (e[1] in (c[1], ('attr', c[1], 'id')) or e[1] == inode_key(c[1])) for e in tr):
                viol(ctx, 'copy-visible', fi, eng, o, 'the directory that collected the copy is left behind', 'temporary')
    for attr in ('atime_ns', 'mtime_ns', 'ctime_ns', 'mode', 'uid', 'gid'):
        s = [e for e in tr if e[0] == 'set' and e[1] == dst0 and e[2] == attr]
        if not s or not (is_attr(s[-1][4], attr) and inode_key(s[-1][4][1]) == src0):
            viol(ctx, 'copy-visible', fi, eng, o, 'the target does not get the %s of the source' % attr, 'target ' + attr)


def copy_entries(ctx, fi, eng, o, tr, per_inode, need):
    ins = [(i, e) for i, e in enumerate(tr) if e[0] == 'sql' and e[1] in ('insert', 'replace') and e[2] == 'contents']
    for i, e in ins:
        cols = flat_insert(e)
        new, name, parent = cols.get('inode'), cols.get('name_id'), cols.get('parent_inode')
        row = name[1] if isinstance(name, tuple) and name[0] == 'item' else None
        src = ('item', row, const(1)) if row is not None else None
        q = next((x for x in tr[:i] if x[0] == 'sql' and x[1] == 'select' and x[2] == 'contents' and row is not None and
                  mentions(row, lambda t, x=x: t in (x[8], canon(x[12])))), None)
        if q is None or src is None:
            viol(ctx, 'copy-rows', fi, eng, o, 'a copied directory entry does not stem from an entry of the source directory', 'entry')
            continue
        try:
            src = ('item', row, const(q[6].index('inode')))
            nm = ('item', row, const(q[6].index('name_id')))
        except ValueError:
            src = nm = None
        if name != nm:
            viol(ctx, 'copy-rows', fi, eng, o, 'a copied directory entry does not carry the name of its source', 'entry-name')
            continue
        parent_pair(ctx, fi, eng, o, q, parent)
        made = next(((j, x) for j, x in enumerate(tr[:i]) if x[0] == 'create' and
                     (new == x[1] or new == ('attr', x[1], 'id') or inode_key(x[1]) == new)), None)
        if made is None:
            # a further link to a file copied before
            ctx.ok('copy-links', 'further link')
            bump = [x for x in tr[:i] if x[0] == 'set' and x[1] == new and x[2] == 'refcount']
            if not (isinstance(new, tuple) and new[0] in ('item', 'res') and mentions(new, lambda t: t == src)):
                viol(ctx, 'copy-links', fi, eng, o, 'a directory entry of the copy refers to something else than the copy of its source',
                     'other')
            elif not bump:
                viol(ctx, 'copy-links', fi, eng, o, 'a further link to a copied file does not count on the copy', 'uncounted')
            continue
        j, c = made
        ctx.ok('copy-attributes', 'new file')
        kw = dict(c[2])
        for x in tr[j:]:
            if x[0] == 'set' and x[1] == new and not x[3]:
                kw[x[2]] = x[4]
        for a in sorted(need):
            v = kw.get(a)
            if v is None or not (is_attr(v, a) and inode_key(v[1]) == src):
                viol(ctx, 'copy-attributes', fi, eng, o, 'the copy does not get the %s of its source' % a, 'copy ' + a)
        if kw.get('refcount') != const(1):
            viol(ctx, 'copy-attributes', fi, eng, o, 'the copy of a file does not start with one link', 'copy refcount')
        # rows
        for t, tab in sorted(per_inode.items()):
            done = False
            for x in tr[j:]:
                if x[0] == 'sql' and x[1] in ('insert', 'replace') and x[2] == t:
                    got = flat_insert(x)
                    if got.get('inode') != new:
                        continue
                    bad = [col for col in tab.cols if col != 'inode' and not is_self_col(got.get(col), col) and not rowid(tab, col)]
                    w = [y for y in x[5]]
                    if not bad and w == [('inode', src)]:
                        done = True
                    else:
                        viol(ctx, 'copy-rows', fi, eng, o, 'the rows of %s are not copied completely (%s)' % (t, ', '.join(bad) or
                             'other rows'), 'rows ' + t)
                        done = True
            ctx.ok('copy-rows', t)
            if not done:
                viol(ctx, 'copy-rows', fi, eng, o, 'the rows of %s are not copied to the new file' % t, 'rows ' + t)
        # several links
        known = set()
        for x in tr[j:]:
            k = x[9] if x[0] == 'sql' else x[3] if x[0] == 'push' else None
            known |= k or set()
        ctx.ok('copy-links', 'first link')
        mapped = [x for x in tr[j:] if x[0] == 'map' and x[2] == src]
        if not mapped and ('single', src) not in known:
            viol(ctx, 'copy-links', fi, eng, o, 'the copy of a file with several links is not remembered for its further links', 'unmapped')
        for x in mapped:
            if x[3] not in (new, c[1]):
                viol(ctx, 'copy-links', fi, eng, o, 'the copy of a file is remembered wrongly', 'mismapped')
        # recursion
        ctx.ok('copy-recursion', 'new file')
        push = [x for x in tr[j:] if x[0] == 'push' and isinstance(x[2], tuple) and x[2][0] == 'tuple' and src in x[2][1:]]
        if push:
            tup = push[0][2]
            rest = list(tup[1:])
            if len(rest) == 1 and isinstance(rest[0], tuple) and rest[0] and isinstance(rest[0][0], tuple):
                rest = list(rest[0])
            if new not in rest or not any(nonpos(y) for y in rest if y not in (src, new)) and len(rest) > 2:
                viol(ctx, 'copy-recursion', fi, eng, o, 'a directory is not copied completely below its copy', 'push')
        else:
            empty = False
            for x in tr[j:]:
                if x[0] == 'sql' and x[1] == 'select' and x[2] == 'contents' and x[5] == (('parent_inode', src),):
                    if any(k[0] == 'truth' and k[1] in (x[12], x[8]) and k[2] is False for k in known if isinstance(k, tuple)):
                        empty = True
            for k in known:
                if isinstance(k, tuple) and k[0] == 'truth' and k[2] is False and k[1][1].endswith('S_ISDIR') and \
                        mentions(k[1], lambda t: is_attr(t, 'mode')):
                    empty = True
            if not empty:
                viol(ctx, 'copy-recursion', fi, eng, o, 'the contents of a directory are not copied', 'no-push')


def rowid(tab, col):
    return col == 'id'


def is_self_col(v, col):
    if isinstance(v, str):
        return v.rpartition('.')[2].lower() == col
    return False


def parent_pair(ctx, fi, eng, o, q, parent):
    '''The directory listed and the directory the copies go to come from the same queue item.'''
    w = dict((c, t) for c, t in q[5] if t is not None)
    s = w.get('parent_inode')
    ok = isinstance(s, tuple) and isinstance(parent, tuple) and s[0] == 'item' and parent[0] == 'item' and s[1] == parent[1] and s[2] != parent[2]
    ctx.ok('copy-rows', 'parent')
    if not ok and not (isinstance(s, tuple) and s[0] in ('const', 'tuple')):
        viol(ctx, 'copy-rows', fi, eng, o, 'entries are copied below another directory than the copy of their parent', 'parent')


def copy_walk(ctx, fi, eng, o, tr, src0):
    '''Listing queries: flushed before, resumed after.'''
    start = 0
    for i, e in enumerate(tr):
        if e[0] == 'pop':
            start = i
        if not (e[0] == 'sql' and e[1] == 'select' and e[2] == 'contents' and any(n == 'name_id' for n in e[6])):
            continue
        w = dict((c, t) for c, t in e[5] if t is not None)
        src = w.get('parent_inode')
        rng = [c for c, t in e[5] if t is None]
        pos = [p for p in e[7] if p != src]
        # flush
        seg = tr[start:i]
        ctx.ok('copy-flush', fi.short)
        loops = [x for x in seg if x[0] in ('loopexit', 'iter') and mentions(x[1], lambda t: is_attr(t, 'cache'))]
        if not loops:
            viol(ctx, 'copy-flush', fi, eng, o, 'a directory is copied without looking for modified blocks of its files', 'no-loop')
        for j, x in enumerate(seg):
            if x[0] != 'iter' or not mentions(x[1], lambda t: is_attr(t, 'cache')):
                continue
            for a in x[3]:
                viol(ctx, 'copy-flush', fi, eng, o, 'modified blocks of some files are not flushed before they are copied', 'filter')
            skip = False
            for y in seg[j:]:
                if y[0] == 'sql' and y[1] == 'select' and y[2] == 'contents' and ('inode', None) not in y[5] and \
                        any(c == 'inode' for c, t in y[5]) and any(c == 'parent_inode' and t == src for c, t in y[5]):
                    if len(y[5]) == 2 and any(k[0] == 'truth' and k[1] in (y[12], y[8]) and k[2] is False
                                              for z in tr[j:] for k in (known_of(z) or ()) if isinstance(k, tuple)):
                        skip = True
            fl = [y for y in seg[j:] if y[0] == 'cacheop' and y[2] in ('start_flush', 'flush')]
            if not skip and not fl:
                viol(ctx, 'copy-flush', fi, eng, o, 'modified blocks of a file are not flushed before it is copied', 'no-flush')
            for y in fl:
                if y[2] == 'start_flush' and y[3] and not (mentions(y[3][0], lambda t: t == x[2] or t[0] == 'elem')):
                    viol(ctx, 'copy-flush', fi, eng, o, 'another file than the one copied is flushed', 'other-flush')
        waits = [x for x in seg[seg.index(loops[-1]) if loops else 0:] if x[0] == 'await' and x[1] not in ('start_flush', 'flush', '')]
        if waits:
            viol(ctx, 'copy-flush', fi, eng, o, 'another task can modify blocks between the flush and the copy (%s)' % waits[0][1], 'gap')
        # resumption
        ends = [j for j in range(i + 1, len(tr)) if tr[j][0] == 'loopexit' and mentions(tr[j][1], lambda t: t in (e[8], canon(e[12])))]
        iters = [j for j in range(i + 1, len(tr)) if tr[j][0] == 'iter' and mentions(tr[j][1], lambda t: t in (e[8], canon(e[12])))]
        if not iters:
            continue
        ctx.ok('copy-resume', fi.short)
        lastrow = tr[iters[-1]][2]
        if not ends and o.kind == 'return':
            ok = False
            for x in tr[iters[-1]:]:
                if x[0] == 'push' and isinstance(x[2], tuple) and x[2][0] == 'tuple' and src in flat_tuple(x[2]):
                    vals = flat_tuple(x[2])
                    if ('item', lastrow, const(e[6].index('name_id'))) in vals and len(vals) == 3 and any(
                            isinstance(v, tuple) and v[0] == 'item' and isinstance(src, tuple) and src[0] == 'item' and v[1] == src[1] and v != src
                            for v in vals):
                        ok = True
            if not ok:
                viol(ctx, 'copy-resume', fi, eng, o, 'a listing is left early and not continued after the last entry copied', 'lost')
        if rng:
            strict = all(re.match(r'name_id > \?', c) for c in rng)
            if not strict or 'order by name_id' not in re.sub(r'\s+', ' ', e[10].lower()) or 'desc' in e[10].lower():
                viol(ctx, 'copy-resume', fi, eng, o, 'the listing cannot be continued by position', 'order')


def known_of(z):
    return {'sql': 9, 'push': 3}.get(z[0]) and z[{'sql': 9, 'push': 3}[z[0]]]


def flat_tuple(t):
    rest = list(t[1:])
    if len(rest) == 1 and isinstance(rest[0], tuple) and rest[0] and isinstance(rest[0][0], tuple):
        rest = list(rest[0])
    return rest


# -- F13 ----------------------------------------------------------------------------------------

GETTERS = ('get_val', 'get_row', 'get_int_val', 'get_row_typed', 'get_str_val', 'get_bytes_val', 'get_inode_val')
LISTERS = ('get_list', 'query', 'query_typed', 'get_list_typed')
ENTRY_TABLES = ('contents', 'contents_v')
# whether these have a row follows from an entry or attribute that uses it, or is up to the users
NAME_TABLES = ('names', 'ext_attributes', 'ext_attributes_v', 'symlink_targets')


class AnswerPolicy(FsPolicy):
    '''Whether a directory entry exists is up to the users: every query for one may find nothing.'''
    force_inline = frozenset({'get_path'})
    max_states = 400
    max_returns = 100

    def raises(self, ev, eng):
        if ev.name in GETTERS:
            return ('s3ql.database.NoSuchRowError',)
        return FsPolicy.raises(self, ev, eng)


def text_of(t):
    if t[0] == 'fmt':
        return t[1]
    return t[1] if is_const(t) and isinstance(t[1], str) else None


class AnswerMonitor(Monitor):
    '''auto: (tables of the last failing query, evidence since the last task switch, obligations)

    evidence: ('alive', key) the directory has a link; ('entries', key, term) the result of a query for entries of a directory.
    '''

    def init(self):
        return (None, frozenset(), ())

    def step(self, auto, ev, st, eng):
        fault, seen, obs = auto
        k = ev.kind
        if k == 'await':
            return (fault, frozenset(), obs) if seen else auto
        if k == 'fault':
            text = ' '.join(t for t in map(text_of, ev.args) if t)
            m = re.search(r'\bFROM\s+(\w+)', text)
            if re.search(r'SELECT\s+(COUNT|MAX|MIN|SUM|TOTAL)\s*\(', text, re.I):
                m = None        # always has a row
            tab = m.group(1).lower() if m else None
            known = any(e[0] == 'changed' or e[0] in ('entries', 'linked') and self.found(e, st) for e in seen)
            return ((ev.extra, tab, known), seen, obs)
        if k == 'raise':
            return (None, seen, obs)
        if k != 'ret':
            return auto
        sq = sql_of(ev, eng)
        if sq is None or not sq.stmt.kind:
            return auto
        s = sq.stmt
        if s.table not in ENTRY_TABLES and not (s.kind == 'select' and re.search(r'\bcontents', s.text or '')):
            return auto
        where = {c[0].rpartition('.')[2].lower(): canon(sq.val(c[2])) for c in s.where
                 if len(c) == 3 and c[1] in ('=', '==') and isinstance(c[0], str) and not isinstance(c[2], str)}
        cols = {n: canon(sq.val(v)) for n, v in s.cols.items()}
        if s.kind == 'select':
            if 'parent_inode' in where:
                seen = seen | {('entries', where['parent_inode'], ev.name, ev.res)}
            if 'inode' in where:
                seen = seen | {('linked', where['inode'], ev.name, ev.res)}
            return (fault, seen, obs)
        site = (ev.fi.qual, ev.node.lineno)
        old = where.get('parent_inode')
        if old is not None and (s.kind == 'delete' or 'name_id' in where):
            lab = ('entry-current', old, self.has_entries(old, seen, st), site, s.kind)
            if lab not in obs:
                obs = obs + (lab,)
        new = cols.get('parent_inode')
        if new is not None and not (s.kind == 'update' and 'parent_inode' not in s.cols):
            lab = ('alive-parent', new, self.alive(new, seen, st), site, s.kind)
            if lab not in obs:
                obs = obs + (lab,)
        if s.kind == 'delete' and old is not None:
            # the other entries are still there, this one is not
            seen = frozenset(e for e in seen if e[0] in ('alive', 'changed') or e[2] in LISTERS)
        return (fault, seen, obs)

    def branch(self, auto, atom, val, st, eng):
        fault, seen, obs = auto
        if atom[0] == 'eq' and val is True and any(is_const(x) and x[1] in ODD_NAMES for x in atom[1:]):
            return (fault, seen, obs + ('odd',))
        for t in atom[1:]:
            # the number of rows changed: entries or attributes with the name existed
            if isinstance(t, tuple) and t[0] == 'res' and t[1].endswith('.execute') and (
                    atom[0] == 'eq' and const(0) in atom[1:] and val is False or atom[0] == 'true' and val is True or
                    atom[0] == 'eq' and const(0) not in atom[1:] and val is True or
                    atom[0] == 'lt' and (atom[1] == const(0) and val is True or atom[2] == const(1) and val is False)):
                return (fault, seen | {('changed', t)}, obs)
        for t in subterms(atom):
            if isinstance(t, tuple) and is_attr(t, 'refcount'):
                key = inode_key(t[1])
                if key is not None and purge_facts(st, key)[2] and self.positive(atom, val, t):
                    return (fault, seen | {('alive', key)}, obs)
        return auto

    @staticmethod
    def positive(atom, val, t):
        '''The branch taken says that the count is not zero.'''
        if atom[0] == 'true':
            return val is True
        if atom[0] == 'eq':
            return val is False and const(0) in atom[1:] or val is True and const(0) not in atom[1:]
        if atom[0] == 'lt':
            return atom[1] == const(0) and atom[2] == t and val is True or atom[1] == t and val is False
        return False

    @staticmethod
    def found(e, st):
        if e[2] == 'has_val':
            return any(a[0] == 'true' and a[1] == e[3] and v is True for a, v in st.facts.items())
        return True     # a row was returned; a row of a listing is processed

    def has_entries(self, key, seen, st):
        return any(e[0] == 'entries' and e[1] == key and self.found(e, st) for e in seen)

    def alive(self, key, seen, st):
        if any(e[0] == 'alive' and e[1] == key for e in seen):
            return True
        if any(e[0] in ('entries', 'linked') and e[1] == key and e[2] not in LISTERS and self.found(e, st) for e in seen):
            return True
        return not mentions(key, lambda u: u[0] == 'param') or mentions(
            key, lambda u: u[0] == 'res' and u[1].endswith('create_inode')) or key[0] == 'global'


def depth_rules(ctx):
    '''Nothing that walks the directory tree recurses: the interpreter limits the depth of recursion, users do not limit the depth of trees.'''
    fns = {}
    for f in ctx.repo.all_functions():
        if f.mod.name.startswith('s3ql') and '.backends' not in f.mod.name:
            fns.setdefault(f.name, []).append(f)
    byq = {f.qual: f for l in fns.values() for f in l}
    nested = {f.qual: {n.name for n in ast.walk(f.node) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n is not f.node}
              for f in byq.values()}
    walks = set()
    graph = {}

    def refs(node):
        for c in ast.walk(node):
            if isinstance(c, ast.Call):
                if isinstance(c.func, ast.Name):
                    yield c.func.id, None
                elif isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id in ('self', 'cls'):
                    yield c.func.attr, 'self'
            elif isinstance(c, ast.Constant) and isinstance(c.value, str) and re.search(r'\bSELECT\b.*\bparent_inode\b', c.value, re.I | re.S):
                yield None, 'walk'

    nodes = {}
    for f in byq.values():
        nodes[f.qual] = (f, f.node, f.cls.name if getattr(f, 'cls', None) else None)
        for n in ast.walk(f.node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n is not f.node:
                nodes[f.qual + '.<locals>.' + n.name] = (f, n, None)
    for q, (f, node, c) in nodes.items():
        out = set()
        for name, how in refs(node):
            if how == 'walk':
                walks.add(q)
            elif how == 'self':
                out |= {x.qual for x in fns.get(name, ()) if x.mod is f.mod and x.qual.rpartition('.')[0] == f.qual.rpartition('.')[0]}
            else:
                loc = f.qual + '.<locals>.' + name
                if loc in nodes:
                    out.add(loc)
                else:
                    out |= {x.qual for x in fns.get(name, ()) if x.mod is f.mod and x.qual == f.mod.name + '.' + name}
        graph[q] = out

    def reach(a):
        seen, todo = set(), list(graph.get(a, ()))
        while todo:
            b = todo.pop()
            if b not in seen:
                seen.add(b)
                todo.extend(graph.get(b, ()))
        return seen

    for q in sorted(graph):
        f, node, c = nodes[q]
        r = reach(q)
        cyc = {x for x in r if q in reach(x)} if q in r else set()
        # a function encloses its local functions
        cyc = {x for x in cyc if not any(y != x and y.startswith(x + '.<locals>.') for y in cyc)}
        if q in cyc and cyc & walks:
            ctx.violate('depth', '%s: recursion' % q, '%s calls itself for every level of the directory tree: a deeply nested tree ends in a '
                        'RecursionError' % q.rpartition('s3ql.')[2], '%s:%d' % (f.mod.rel if hasattr(f.mod, 'rel') else f.mod.name, node.lineno))
        elif q in walks:
            ctx.ok('depth', q)
    ctx.floor('depth', 10)


@check('F13', explanation='''Path analysis of all request handlers in which every query for a directory entry may find nothing: no such outcome may
leave a handler as anything but a file system error code, which includes the computation of paths for messages. Every statement that
removes or moves a directory entry must be preceded, with no task switch in between, by a query that found the entry, and every statement
that creates or moves an entry by evidence that the directory it goes to is still linked.''')
def f13(ctx):
    ctx.rule('answered', 'a directory entry or path that does not exist is answered with an error code')
    ctx.rule('entry-current', 'an entry is removed or moved only if it was seen since other tasks could last run')
    ctx.rule('alive-parent', 'an entry is put only into a directory that is known to be linked')
    ctx.rule('depth', 'no function that walks the directory tree is recursive')
    for name in handlers(ctx):
        fi, eng, outs = run_handler(ctx, name, AnswerPolicy, AnswerMonitor())
        for o in outs:
            if odd_path(o):
                continue
            fault, seen, obs = o.st.auto
            if 'odd' in obs:
                continue
            bad = False
            if o.kind == 'raise' and not str(o.val[1]).endswith('FUSEError'):
                exc = str(o.val[1])
                if exc.endswith('NoSuchRowError'):
                    bad = fault is not None and (fault[1] in ENTRY_TABLES or fault[1] in NAME_TABLES and not fault[2])
                else:
                    bad = exc == 'builtins.RuntimeError' or exc.startswith('s3ql.') and not exc.endswith('Error')
                if bad:
                    ctx.violate('answered', '%s: %s' % (fi.qual, exc.rpartition('.')[2]),
                                '%s: a name, path or directory that does not exist ends in %s instead of an error code' % (
                                    fi.short, exc.rpartition('.')[2]), 'src/s3ql/fs.py:%d' % fi.node.lineno, eng.describe_trace(o.st))
            if not bad:
                ctx.ok('answered', fi.qual)
            for rule, key, good, site, kind in obs:
                if good:
                    ctx.ok(rule, '%s: %s in %s' % (fi.qual, kind, site[0]))
                else:
                    ctx.violate(rule, '%s: %s in %s' % (fi.qual, kind, site[0]),
                                '%s: %s of a directory entry %s' % (
                                    fi.short, kind, 'that other tasks may have removed since it was read' if rule == 'entry-current' else
                                    'in a directory that may have been removed'), 'src/s3ql/fs.py:%d' % site[1], eng.describe_trace(o.st))
    depth_rules(ctx)
    ctx.floor('answered', 20)
    ctx.floor('entry-current', 4)
    ctx.floor('alive-parent', 4)

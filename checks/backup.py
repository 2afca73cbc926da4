'''Metadata backups: consistent snapshots, write tracking, download of one version, expiry of old versions.'''

from __future__ import annotations

import ast
import re

from sa.cxx import Unit, CxxEngine, contains, linear, sub as lsub
from sa.interp import Monitor, const, cval, is_const, mentions, show, NONE, TRUE, FALSE
from sa.lib import StdPolicy, cls_name, all_funcs_in, is_attr, lin_diff
from sa.repo import AnalysisError
from sa.sqlp import sql_of
from . import check
from .meta import MetaPolicy, MetaMonitor, mviol, param_arg, DB, dec, decided

RUN = 's3ql.mount.MetadataUploadTask.run'


# -------------------------------------------------------------------------------------------
# M05


class BackupPolicy(MetaPolicy):
    fail = frozenset({'write_params', 'upload_params', 'upload_metadata', 'expire_objects'})


class BackupMonitor(MetaMonitor):
    def label(self, ev, st, eng):
        if ev.kind == 'call' and ev.name == 'inhibit_writes':
            return ('inhibit-of', ev.recv)
        if ev.kind == 'enter' and is_inhibit(ev.recv):
            return ('inhibit', ev.recv)
        if ev.kind == 'exit' and is_inhibit(ev.recv):
            return ('release', ev.recv)
        if ev.kind == 'fault':
            return ('failed', ev.extra)
        return super().label(ev, st, eng)


def is_inhibit(t):
    return t is not None and mentions(t, lambda u: u[0] == 'res' and u[1].endswith('inhibit_writes'))


@check('M05', explanation="""Ordering analysis of every path of the backup task: version records are published only inside inhibit_writes, after a
complete upload with final parameters, and are followed, before writes are allowed again, by the record of a higher version; no failure is
swallowed. Typestate analysis of inhibit_writes and the checkpoint functions: the database file is frozen between entry and every kind of exit
and released on all of them.""")
def m05(ctx):
    ctx.rule('publish', 'a version is published only after its complete upload, while writes are inhibited')
    ctx.rule('next-version', 'a higher version number is recorded before writes are allowed again')
    ctx.rule('failure', 'a failed step is not followed by a version record and ends the mount')
    ctx.rule('frozen', 'writes are inhibited and a read transaction is open while the snapshot is taken')
    ctx.rule('released', 'writes are allowed again on every way out, and waiting checkpoints are resumed')
    ctx.rule('no-checkpoint', 'no checkpoint is run while writes are inhibited')
    task_rules(ctx)
    inhibit_rules(ctx)
    checkpoint_rules(ctx)
    for r in ctx.rules:
        ctx.floor(r)


def task_rules(ctx):
    fi = ctx.repo.func(RUN)
    eng, outs = ctx.run(fi, BackupPolicy(), BackupMonitor())
    sites = 0
    for o in outs:
        tr = o.st.auto
        inside = False
        db = None
        full = None       # parameters of the complete upload in this section
        state = 'new'     # old: version published, no higher number yet
        failed = False
        for i, e in enumerate(tr):
            if e[0] == 'inhibit-of':
                db = e[1]
            elif e[0] == 'inhibit':
                inside, full, state = True, None, 'none'
            elif e[0] == 'release':
                if not failed:
                    ctx.ok('next-version', 'release')
                    if state == 'published':
                        mviol(ctx, 'next-version', fi, eng, o, 'writes are allowed while the version just published is still the current one',
                              'same-version')
                    elif state == 'raised':
                        mviol(ctx, 'next-version', fi, eng, o, 'writes are allowed before the new version number was recorded', 'unrecorded')
                inside = False
            elif e[0] == 'failed':
                failed = True
            elif e[0] == 'begin' and failed and e[1] in ('write_params', 'upload_params'):
                mviol(ctx, 'failure', fi, eng, o, 'parameters are recorded although %s failed' % failed_what(tr[:i]), 'after-failure')
            if e[0] == 'begin' and e[1] == 'upload_metadata':
                a = upload_args(ctx, e)
                kw = ev_kw(tr, i)
                upd = kw.get('update_params', a[4] if len(a) > 4 else TRUE)
                if not inside:
                    ctx.ok('publish', 'preliminary upload')
                    if upd != FALSE:
                        mviol(ctx, 'publish', fi, eng, o, 'size and checksum are taken while the database may change', 'checksum')
            if e[0] == 'upload_metadata' and e[3] and inside:
                kw = dict(e[2])
                upd = kw.get('update_params', e[1][4] if len(e[1]) > 4 else TRUE)
                d = e[1][1] if len(e[1]) > 1 else kw.get('db')
                if upd == TRUE and d == db:
                    full = param_arg(e)
            if e[0] == 'set' and e[2] == 'seq_no':
                if isinstance(e[5], int) and e[5] >= 1:
                    state = 'raised' if state == 'published' else state
                else:
                    state = 'odd'
                full = None if state not in ('raised',) else full
                written = False
            if e[0] == 'write_params':
                if state == 'raised':
                    state = 'raised-local'
            if e[0] == 'begin' and e[1] == 'upload_params':
                p = e[2][1] if len(e[2]) > 1 else None
                sites += 1
                ctx.ok('publish', 'record')
                if not inside:
                    mviol(ctx, 'publish', fi, eng, o, 'a version is published while writes are possible', 'uninhibited')
                elif state in ('none', 'odd') and full != p:
                    mviol(ctx, 'publish', fi, eng, o, 'a version is published without a complete upload of its blocks', 'incomplete')
            if e[0] == 'upload_params' and e[3]:
                if state == 'none':
                    state = 'published'
                elif state == 'raised-local':
                    state = 'done'
        if failed:
            ctx.ok('failure', failed_what(tr))
            if o.kind != 'raise':
                mviol(ctx, 'failure', fi, eng, o, 'the failure of %s is ignored' % failed_what(tr), 'ignored')
    if not sites:
        ctx.violate('publish', fi.qual, 'the backup task publishes no version record', fi.loc())


def failed_what(tr):
    return next((str(e[1]) for e in tr if e[0] == 'failed'), '?')


def upload_args(ctx, e):
    return e[2]


def ev_kw(tr, i):
    """Keyword arguments of the call begun at position i."""
    for e in tr[i + 1:]:
        if e[0] == 'upload_metadata':
            return dict(e[2])
        if e[0] in ('begin', 'failed'):
            break
    return {'update_params': FALSE} if any(e[0] == 'failed' for e in tr[i + 1:i + 2]) else {}


class InhibitPolicy(StdPolicy):
    norow = False
    os_raises = False
    await_raises = False
    inline_modules = frozenset()

    def raises(self, ev, eng):
        return ('any',) if ev.kind == 'yield' or ev.kind == 'call' and (ev.name == 'execute' or ev.qual.endswith('apsw.Connection')) else ()

    def inline(self, fi, eng):
        from sa.baseline import known_functions

        return fi.qual not in known_functions()


class InhibitMonitor(Monitor):
    def init(self):
        return ()

    def step(self, auto, ev, st, eng):
        if ev.kind == 'setattr' and ev.name == '_inhibit_writes_event':
            return auto + (('event', ev.res),)
        if ev.kind == 'yield':
            return auto + (('yield',),)
        if ev.kind == 'fault' and ev.extra in ('execute', 'Connection'):
            return auto + (('failed',),)
        if ev.kind == 'call' and ev.name == 'set_writes_inhibited':
            return auto + (('inhibit', ev.args[0] if ev.args else None),)
        if ev.kind == 'call' and ev.name == 'execute' and ev.args and is_const(ev.args[0]):
            return auto + (('sql', root(ev.recv), re.sub(r'\s+', ' ', str(cval(ev.args[0]))).strip().upper()),)
        if ev.kind == 'ret' and ev.qual.endswith('apsw.Connection'):
            return auto + (('connect', ev.res, tuple(ev.args)),)
        if ev.kind == 'call' and ev.name == 'close':
            return auto + (('close', root(ev.recv)),)
        if ev.kind == 'call' and ev.name == 'set' and not ev.args:
            return auto + (('set', ev.recv),)
        if ev.kind == 'ret' and ev.name == 'wait' and ev.awaited:
            return auto + (('wait', ev.recv),)
        if ev.kind == 'call' and ev.name == '_do_checkpoint':
            return auto + (('checkpoint',),)
        return auto

    def branch(self, auto, atom, val, st, eng):
        if mentions(atom, lambda u: is_attr(u, '_inhibit_writes_event')):
            return auto + (('if', atom, val),)
        return auto


def root(t):
    """The connection a cursor expression belongs to."""
    while t is not None and t[0] == 'res' and t[1].rpartition('.')[2] == 'cursor' and len(t) > 3 and t[3]:
        t = t[3][0]
    return t


def inhibit_rules(ctx):
    fi = ctx.repo.func(DB + '.Connection.inhibit_writes')
    eng, outs = ctx.run(fi, InhibitPolicy(), InhibitMonitor())
    for o in outs:
        tr = o.st.auto
        if any(e[0] == 'connect' and o.st.facts.get(('isnone', e[1])) for e in tr):
            continue        # (a constructor returns an object)
        if ('yield',) not in tr:
            if o.kind != 'raise':
                mviol(ctx, 'frozen', fi, eng, o, 'a path never hands over control', 'no-yield')
            released(ctx, fi, eng, o, tr)
            continue
        y = tr.index(('yield',))
        pre, post = tr[:y], tr[y + 1:]
        ctx.ok('frozen', 'entry')
        ev = [e for e in pre if e[0] == 'event']
        if not ev or ev[-1][1] == NONE:
            mviol(ctx, 'frozen', fi, eng, o, 'checkpoints are not told that writes are inhibited', 'event')
            continue
        inh = [e for e in pre if e[0] == 'inhibit']
        if not inh or inh[-1][1] != TRUE:
            mviol(ctx, 'frozen', fi, eng, o, 'writes to the database file are not rejected', 'flag')
        if ('if', ('isnone', ev_attr(fi)), True) not in pre:
            mviol(ctx, 'frozen', fi, eng, o, 'a second snapshot can start while one is active', 'twice')
        conns = [e[1] for e in pre if e[0] == 'connect']
        reading = None
        for c in conns:
            sq = [e[2] for e in pre if e[0] == 'sql' and e[1] == c]
            if any(s.startswith('BEGIN') for s in sq) and sq and sq[-1].startswith('SELECT') \
                    and not any(e == ('close', c) for e in pre):
                reading = c
        if reading is None or ('failed',) in pre:
            mviol(ctx, 'frozen', fi, eng, o, 'no read transaction keeps the database file at one checkpoint', 'reader')
        released(ctx, fi, eng, o, tr)
        if reading is not None and ('close', reading) not in post and ('failed',) not in post and not any(
                e[0] == 'sql' and e[1] == reading and e[2].startswith(('ROLLBACK', 'COMMIT', 'END')) for e in post):
            mviol(ctx, 'released', fi, eng, o, 'the read transaction stays open', 'reader')


def released(ctx, fi, eng, o, tr):
    """Whatever was set up is undone at the end of the path, also if setting up or undoing another part failed."""
    ctx.ok('released', '%s %s' % (o.kind, 'after an error' if ('failed',) in tr else ''))
    inh = [e for e in tr if e[0] == 'inhibit']
    if inh and inh[-1][1] != FALSE:
        mviol(ctx, 'released', fi, eng, o, 'writes stay inhibited', 'flag')
    evs = [i for i, e in enumerate(tr) if e[0] == 'event' and e[1] != NONE]
    if not evs:
        return
    i = evs[-1]
    if ('set', tr[i][1]) not in tr[i:] and ('yield',) in tr[i:]:
        mviol(ctx, 'released', fi, eng, o, 'waiting checkpoints are never resumed', 'event')
    if [e for e in tr if e[0] == 'event'][-1] != ('event', NONE):
        mviol(ctx, 'released', fi, eng, o, 'the next snapshot is refused', 'event-kept')


def ev_attr(fi):
    return ('attr', ('self', fi.qual), '_inhibit_writes_event') if False else EventAttr()


class EventAttr(tuple):
    """Equal to any attribute term _inhibit_writes_event."""

    def __new__(cls):
        return tuple.__new__(cls, ('attr', None, '_inhibit_writes_event'))

    def __eq__(self, other):
        return isinstance(other, tuple) and len(other) == 3 and other[0] == 'attr' and other[2] == '_inhibit_writes_event'

    __hash__ = tuple.__hash__


def checkpoint_rules(ctx):
    users = 0
    for mod in ctx.repo.modules.values():
        if not mod.name.startswith('s3ql'):
            continue
        for f in all_funcs_in(mod):
            low = any(isinstance(c, ast.Constant) and isinstance(c.value, str) and 'wal_checkpoint' in c.value.lower()
                      and not is_doc(f.node, c) for c in ast.walk(f.node))
            if low:
                users += 1
                if f.short.rpartition('.')[2] != '_do_checkpoint' and f.cls is not None and f.name != '_do_checkpoint':
                    ctx.violate('no-checkpoint', f.qual, '%s checkpoints the database directly' % f.short, f.loc())
            calls = any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == '_do_checkpoint' for c in ast.walk(f.node))
            if not calls:
                continue
            eng, outs = ctx.run(f, InhibitPolicy(), InhibitMonitor())
            for o in outs:
                tr = o.st.auto
                for i, e in enumerate(tr):
                    if e == ('checkpoint',):
                        ctx.ok('no-checkpoint', f.short)
                        free = any(x[0] == 'if' and x[1][0] == 'isnone' and x[2] is True for x in tr[:i]) \
                            or any(x[0] == 'wait' and x[1] is not None and x[1] == EventAttr() for x in tr[:i])
                        if not free:
                            mviol(ctx, 'no-checkpoint', f, eng, o, 'the database may be checkpointed while writes are inhibited', 'checkpoint')
    if not users:
        ctx.violate('no-checkpoint', 'none', 'no function checkpoints the database')


def is_doc(fn, c):
    b = fn.body
    return bool(b) and isinstance(b[0], ast.Expr) and b[0].value is c


# -------------------------------------------------------------------------------------------
# M06

CPP = 'src/s3ql/_sqlite3ext.cpp'
PYX = 'src/s3ql/sqlite3ext.pyx'
LOST = ('erase', 'clear', 'swap', 'extract', 'merge')
UPL = DB + '.UploadMetadata'


@check('M06', explanation="""Path analysis of the C++ write tracker on clang's syntax tree: every function installed as write or truncate method
forwards to the real file only after the inhibition test, and a successful write to a tracked file records every block from the one holding its
first byte to the one holding its last byte (the loop bounds are compared as linear terms with floor division); truncation drops only blocks
beyond the new end. The Cython wrapper and the Python upload are analysed for the way of a record into exactly one upload of that block.""",
       assumptions=('SQLite modifies the database file only through xWrite and xTruncate of the VFS (memory-mapped writes are not enabled)',))
def m06(ctx):
    ctx.rule('inhibited', 'no write or truncation reaches a tracked file while writes are inhibited')
    ctx.rule('tracked', 'a successful write records all blocks it touches')
    ctx.rule('truncate', 'truncation drops only records of blocks beyond the new end')
    ctx.rule('open', 'a tracked database file is opened with its block record and the tracking methods')
    ctx.rule('taken', 'a block leaves the record only by being handed to an upload')
    ctx.rule('connect', 'tracking is set up for the path that is opened, before it is opened')
    ctx.rule('upload', 'every recorded block is uploaded with its complete content')
    cpp_rules(ctx)
    pyx_rules(ctx)
    connect_rules(ctx)
    upload_rules(ctx)
    for r in ctx.rules:
        ctx.floor(r)


def cviol(ctx, rule, fn, what, msg, path=None):
    lines = ['%s is %s' % (cshow(t), v) for t, v in path.facts] if path is not None else ()
    ctx.violate(rule, 'C++ %s: %s' % (fn, what), '%s: %s' % (fn, msg), CPP, lines)


def cshow(t):
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    if k in ('int', 'var', 'str'):
        return str(t[1])
    if k == 'member':
        return '%s.%s' % (cshow(t[1]), t[2])
    if k == 'bin':
        return '(%s %s %s)' % (cshow(t[2]), t[1], cshow(t[3]))
    if k == 'un':
        return '%s%s' % (t[1], cshow(t[2]))
    if k == 'mcall':
        return '%s.%s(...)' % (cshow(t[1]), t[2])
    if k == 'iter':
        return str(t[1])
    return k


def cpp_rules(ctx):
    import os

    path = os.path.join(ctx.repo.root, CPP)
    if not os.path.exists(path):
        ctx.violate('tracked', 'missing', 'the write tracker %s does not exist' % CPP)
        return
    with open(path) as fh:
        unit = Unit(path, fh.read())
    eng = CxxEngine(unit)
    _, outs = eng.run('vfstraceOpen')
    slots = {'xWrite': set(), 'xTruncate': set()}
    n = 0
    for o in outs:
        n += 1
        ev = o.events
        found = None
        for t, v in o.facts:
            if t[0] == 'bin' and t[1] == '==' and any(is_find(x) for x in t[2:]):
                found = (not v, next(x for x in t[2:] if is_find(x)))
        bm = [e for e in ev if e[0] == 'assign' and e[1][0] == 'member' and e[1][2] == 'block_map']
        meth = [e for e in ev if e[0] == 'assign' and e[1][0] == 'member' and e[1][2] == 'pMethods']
        ctx.ok('open', 'path %d' % n)
        if found is None or not contains(found[1], ('var', 'zName')) and not any(f == (('var', 'zName'), False) for f in o.facts):
            cviol(ctx, 'open', 'vfstraceOpen', 'lookup', 'the file is not looked up by its name', o)
        elif found[0] and not (bm and contains(bm[-1][2], found[1])):
            cviol(ctx, 'open', 'vfstraceOpen', 'record', 'a tracked file is opened without its block record', o)
        for e in ev:
            if e[0] == 'assign' and e[1][0] == 'member' and e[1][2] in slots:
                slots[e[1][2]].add(e[2])
        for e in meth:
            tab = e[2]
            for s in slots:
                if not any(x[0] == 'assign' and x[1] == ('member', tab, s) for x in ev):
                    cviol(ctx, 'open', 'vfstraceOpen', s, 'the file gets a method table without %s' % s, o)
        sub_ok = [v for t, v in o.facts if t[0] == 'member' and t[2] == 'pMethods']
        if found and found[0] and not meth and True in sub_ok:
            cviol(ctx, 'open', 'vfstraceOpen', 'methods', 'a tracked file keeps the methods of the underlying file system', o)
    for s, vs in slots.items():
        if not vs:
            cviol(ctx, 'open', 'vfstraceOpen', s, '%s is never installed' % s)
        for v in vs:
            if v[0] != 'var' or not unit.defined(v[1]):
                cviol(ctx, 'open', 'vfstraceOpen', s, '%s is set to something that does not track (%s)' % (s, cshow(v)))
                continue
            (write_rules if s == 'xWrite' else trunc_rules)(ctx, eng, v[1])
    # nobody else drops records
    handlers = {v[1] for v in slots['xTruncate'] if v[0] == 'var'}
    for f in unit.all_functions():
        if not re.search(r'block_map|blocksize|writes_inhibited', body_text(unit.text, f)):
            continue
        try:
            _, outs = eng.run(f)
        except AnalysisError:
            continue
        for o in outs:
            for e in o.events:
                if e[0] == 'mcall' and e[2] in LOST and is_map(e[1]) and f not in handlers and not only_through(unit, f, handlers):
                    cviol(ctx, 'taken', f, 'drops', 'drops records of modified blocks', o)
                if e[0] == 'assign' and e[1] in (('var', 'blocksize'), ('var', 'file_block_map')):
                    cviol(ctx, 'taken', f, 'assigns', 'changes %s' % e[1][1], o)
                if e[0] == 'mcall' and e[2] in ('store', 'exchange') and e[1] == ('var', 'writes_inhibited'):
                    cviol(ctx, 'inhibited', f, 'store', 'changes the inhibition flag', o)
    ctx.functions |= {'C++ ' + a for a in eng.analysed}


def body_text(text, f):
    m = re.search(r'\b%s\s*\([^;{}]*\)\s*\{' % re.escape(f), text)
    if not m:
        return ''
    e = text.find('\n}', m.end())
    return text[m.start():e if e > 0 else len(text)]


def only_through(unit, f, handlers):
    """Is f a helper that is called by the truncate handlers only?"""
    users = [g for g in unit.all_functions() if g != f and re.search(r'\b%s\s*\(' % re.escape(f), body_text(unit.text, g))]
    return bool(users) and all(g in handlers or only_through(unit, g, handlers) for g in users)


def is_find(t):
    return t[0] == 'mcall' and t[1] == ('var', 'file_block_map') and t[2] == 'find'


def is_map(t):
    return contains(t, ('var', 'file_block_map')) or has_member(t, 'block_map')


def has_member(t, name):
    return isinstance(t, tuple) and ((len(t) > 2 and t[0] == 'member' and t[2] == name) or any(has_member(x, name) for x in t if isinstance(x, tuple)))


def forwarded(o, slot):
    return [(i, e) for i, e in enumerate(o.events) if e[0] == 'mcall' and e[2] == slot and has_member(e[1], 'pReal')]


def untracked(facts, recs):
    return any((t in recs and not v) for t, v in facts)


def common_rules(ctx, fn, slot, params, o, size_args):
    """The inhibition rules; returns True if this path modified the tracked file."""
    rec = ('member', ('var', params[0]), 'block_map')
    fw = forwarded(o, slot)
    rule = 'inhibited'
    ctx.ok(rule, '%s path' % fn)
    if not fw:
        if o.ret is None or o.ret == ('int', 0):
            cviol(ctx, rule, fn, 'silent', 'reports success without doing anything', o)
        return False
    i, e = fw[0]
    before = o.facts[:e[5]]
    free = any((t == rec and not v) for t, v in before) or any(
        t[0] == 'mcall' and t[1] == ('var', 'writes_inhibited') and t[2] == 'load' and not v for t, v in before) or any(
        (t == ('var', 'writes_inhibited') and not v) for t, v in before)
    if not free:
        cviol(ctx, rule, fn, 'allowed', 'a write to a tracked file is not stopped while writes are inhibited', o)
    want = tuple(('var', p) for p in params[1:])
    if tuple(e[3][1:]) != want:
        cviol(ctx, rule, fn, 'changed', 'forwards a different request', o)
    res = e[4]
    okf = [v for t, v in o.facts if t == res]
    okf += [not v for t, v in o.facts if t[0] == 'bin' and t[1] == '==' and res in t[2:] and ('int', 0) in t[2:]]
    failed = bool(okf) and okf[0]
    if failed:
        if o.ret == ('int', 0):
            cviol(ctx, rule, fn, 'hidden', 'a failed write is reported as success', o)
        return False
    if o.ret != res and o.ret != ('int', 0):
        cviol(ctx, rule, fn, 'result', 'the result of the underlying file is not returned', o)
    return not untracked(o.facts, (rec, ('var', 'blocksize')))


def write_rules(ctx, eng, fn):
    params, outs = eng.run(fn)
    bs = ('var', 'blocksize')
    if len(params) != 4:
        cviol(ctx, 'tracked', fn, 'signature', 'unexpected parameters')
        return
    ofst, amt = ('var', params[3]), ('var', params[2])
    end = ('bin', '+', ofst, amt)
    rec = ('member', ('var', params[0]), 'block_map')
    full = False
    for o in outs:
        if not common_rules(ctx, fn, 'xWrite', params, o, None):
            continue
        if any((t == amt and not v) or (t == ('bin', '==', amt, ('int', 0)) and v) or (t == ('bin', '<', ('int', 0), amt) and not v)
               or (t == ('bin', '<', amt, ('int', 1)) and v) for t, v in o.facts):
            continue
        ctx.ok('tracked', '%s path' % fn)
        fwi = forwarded(o, 'xWrite')[0][0]
        ins = [e for e in o.events if e[0] == 'mcall' and e[2] in ('insert', 'emplace') and e[1] == rec]
        loops = [e for e in o.events if e[0] == 'loop']
        var = None
        for e in loops:
            for name, start in e[1]:
                it = ('iter', name, start)
                if any(contains(t, it) for t, v in o.facts) or any(it in x[3] for x in ins):
                    var = (name, start, it)
        if any(e[0] == 'break' for e in o.events):
            cviol(ctx, 'tracked', fn, 'break', 'the loop over the blocks can end early', o)
            continue
        if var is None:
            # a path without a loop: a single block, inserted directly
            one = [e for e in ins if linear(e[3][0]) == linear(('bin', '/', ofst, bs))]
            same = any(t[0] == 'bin' and t[1] == '==' and v and {repr(linear(x)) for x in t[2:]} == {
                repr(linear(('bin', '/', ofst, bs))), repr(linear(('bin', '/', ('bin', '-', end, ('int', 1)), bs)))} for t, v in o.facts)
            if not (one and same):
                cviol(ctx, 'tracked', fn, 'unrecorded', 'a write to a tracked file is not recorded', o)
            continue
        name, start, it = var
        if not starts_low(start, ofst, bs):
            cviol(ctx, 'tracked', fn, 'first', 'recording starts behind the first block written (%s)' % cshow(start), o)
        body = any(e[0] == 'loop-next' for e in o.events)
        bound = None
        for t, v in o.facts:
            if t[0] == 'bin' and t[1] == '<' and t[2] == it:
                bound = t[3]
            elif t[0] == 'bin' and t[1] == '<' and t[3] == it:
                bound = ('bin', '+', t[2], ('int', 1))
            elif t[0] == 'bin' and t[1] == '==' and it in t[2:]:
                bound = t[2] if t[3] == it else t[3]
        if bound is None:
            cviol(ctx, 'tracked', fn, 'bound', 'the loop over the blocks has no recognizable end', o)
            continue
        if not covers(bound, end, bs, o.facts):
            cviol(ctx, 'tracked', fn, 'last', 'the last block written may not be recorded (end %s)' % cshow(bound), o)
        if body:
            full = True
            nxt = next(e for e in o.events if e[0] == 'loop-next')
            step = dict(nxt[1]).get(name)
            if not any(e[3] and e[3][0] == it for e in ins):
                cviol(ctx, 'tracked', fn, 'skipped', 'a block in the range is not recorded', o)
            if step is None or lsub(linear(step), linear(it)) != {1: 1}:
                cviol(ctx, 'tracked', fn, 'step', 'the loop leaves out blocks', o)
    if not full and not any(e[0] == 'mcall' and e[2] == 'insert' for o in outs for e in o.events):
        cviol(ctx, 'tracked', fn, 'never', 'writes are never recorded')


def starts_low(start, ofst, bs):
    if start == ('int', 0):
        return True
    d = lsub(linear(start), linear(('bin', '/', ofst, bs)))
    return not d or (set(d) == {1} and d[1] <= 0)


def covers(u, end, bs, facts):
    """u*bs >= end?"""
    ub = linear(('bin', '*', u, bs))
    for t, v in facts:
        if t[0] == 'bin' and t[1] == '<':
            # not (u*bs < end), or end < u*bs (+1)
            if not v and linear(t[2]) == ub and linear(t[3]) == linear(end):
                return True
            if v and linear(t[3]) == ub and linear(t[2]) == linear(end):
                return True
        if t[0] == 'bin' and t[1] == '%' and not v and linear(t[2]) == linear(end) and linear(t[3]) == linear(bs):
            if linear(u) == linear(('bin', '/', end, bs)):
                return True
        if t[0] == 'bin' and t[1] == '==' and v and ('int', 0) in t[2:]:
            m = t[2] if t[3] == ('int', 0) else t[3]
            if m[0] == 'bin' and m[1] == '%' and linear(m[2]) == linear(end) and linear(m[3]) == linear(bs) \
                    and linear(u) == linear(('bin', '/', end, bs)):
                return True
    lu = linear(u)
    divs = [k for k in lu if isinstance(k, tuple) and k and k[0] == 'div']
    if len(divs) != 1 or lu[divs[0]] != 1 or dict(divs[0][2]) != linear(bs):
        return False
    rest = {k: v for k, v in lu.items() if k != divs[0]}
    if any(k != 1 for k in rest):
        return False
    c = rest.get(1, 0)
    num = dict(divs[0][1])
    # u*bs >= num - (bs-1) + c*bs
    low = lsub(num, linear(end))
    low[1] = low.get(1, 0) + 1
    low[bs] = low.get(bs, 0) + c - 1
    low = {k: v for k, v in low.items() if v}
    if any(k not in (1, bs) for k in low):
        return False
    b = low.get(bs, 0)
    return b >= 0 and low.get(1, 0) + b >= 0


def trunc_rules(ctx, eng, fn):
    params, outs = eng.run(fn)
    bs = ('var', 'blocksize')
    size = ('var', params[1])
    for o in outs:
        common_rules(ctx, fn, 'xTruncate', params, o, None)
        ctx.ok('truncate', '%s path' % fn)
        for e in o.events:
            if e[0] != 'mcall' or not is_map(e[1]) or e[2] not in LOST:
                continue
            fw = forwarded(o, 'xTruncate')
            if not fw or o.events.index(e) < fw[0][0]:
                cviol(ctx, 'truncate', fn, 'early', 'records are dropped although the file may not be truncated', o)
            if e[2] != 'erase' or not e[3]:
                cviol(ctx, 'truncate', fn, e[2], 'records of blocks inside the file are dropped', o)
                continue
            el = ('un', '*', e[3][0])
            if not any(beyond(t, v, (el, e[3][0]), size, bs) for t, v in o.facts[:e[5] if len(e) > 5 else None]):
                cviol(ctx, 'truncate', fn, 'erase', 'the record of a block inside the file may be dropped', o)


def beyond(t, v, els, size, bs):
    """Does this fact imply el*bs >= size?"""
    if t[0] != 'bin' or t[1] != '<':
        return False
    for el in els:
        prod = linear(('bin', '*', el, bs))
        if not v and linear(t[2]) == prod and linear(t[3]) == linear(size):
            return True
        if v and linear(t[3]) == prod and linear(t[2]) == linear(size):
            return True
        if v and t[3] == el:
            low = ('bin', '+', t[2], ('int', 1))      # el >= t2 + 1
        elif not v and t[2] == el:
            low = t[3]                                # el >= t3
        else:
            continue
        if covers(low, size, bs, ()):
            return True
    return False


# -- the Cython wrapper


def pyx_module(ctx):
    """The Cython wrapper as Python module (type declarations removed)."""
    import os

    from sa.repo import Module

    path = os.path.join(ctx.repo.root, PYX)
    if not os.path.exists(path):
        return None
    with open(path) as fh:
        lines = fh.read().splitlines()
    out, skip = [], None
    for ln in lines:
        ind = len(ln) - len(ln.lstrip())
        if skip is not None:
            if not ln.strip() or ind > skip:
                out.append('')
                continue
            skip = None
        s = ln.strip()
        if re.match(r'cdef\s+extern\b', s):
            skip = ind
            out.append('')
            continue
        if re.match(r'(from\s+\S+\s+cimport\b|cimport\b)', s):
            out.append('')
            continue
        pre = ' ' * ind
        m = re.match(r'cdef\s+class\s+(\w+.*)$', s)
        if m:
            out.append(pre + 'class ' + m.group(1))
            continue
        m = re.match(r'c(?:p)?def\s+[^=()]*?(\w+)\s*\(([^)]*)\)\s*(?:except\s*[^:]*|noexcept|nogil|\s)*:\s*$', s)
        if m:
            args = ', '.join(a.split('=')[0].replace('*', ' ').replace('&', ' ').split()[-1] for a in m.group(2).split(',') if a.strip())
            out.append(pre + 'def %s(%s):' % (m.group(1), args))
            continue
        m = re.match(r'cdef\s+[^=]*?(\w+)\s*=\s*(.*)$', s)
        if m:
            ln = pre + '%s = %s' % (m.group(1), m.group(2))
        elif re.match(r'cdef\s+[^=()]*$', s):
            m = re.match(r'cdef\s+.*?(\w+)\s*$', s)
            ln = pre + ('%s: object' % m.group(1) if m else 'pass')
        ln = re.sub(r'([(=,]\s*|return\s+)&(?=\w)', r'\1', ln)
        ln = re.sub(r'<[\w\s*]+>(?=[\w(])', '', ln)
        out.append(ln)
    return Module(ctx.repo, 's3ql.sqlite3ext', path, PYX, src='\n'.join(out) + '\n')


class PyxMonitor(Monitor):
    def init(self):
        return ()

    def step(self, auto, ev, st, eng):
        if ev.kind == 'call' and ev.name in LOST + ('begin', 'end', 'insert', 'store'):
            return auto + ((ev.name, ev.recv, tuple(ev.args), ev.res),)
        if ev.kind == 'setglobal':
            return auto + (('setglobal', ev.name, ev.res),)
        return auto

    def branch(self, auto, atom, val, st, eng):
        return auto + (('if', atom, val),)


def pyx_rules(ctx):
    mod = pyx_module(ctx)
    if mod is None:
        ctx.violate('taken', 'missing', 'the wrapper %s does not exist' % PYX)
        return
    ctx.repo.modules['s3ql.sqlite3ext'] = mod
    try:
        tracker = next((c for c in mod.classes.values() if 'get_block' in c.methods), None)
        if tracker is None:
            ctx.violate('taken', 'get_block', 'no class offers get_block', PYX)
            return
        fi = tracker.methods['get_block']
        eng, outs = ctx.run(fi, InhibitPolicy(), PyxMonitor())
        gives = 0
        for o in outs:
            tr = o.st.auto
            erased = [e for e in tr if e[0] == 'erase']
            if o.kind == 'return':
                gives += 1
                ctx.ok('taken', 'get_block returns')
                if len(erased) != 1 or any(e[0] in LOST[1:] for e in tr):
                    mviol(ctx, 'taken', fi, eng, o, 'not exactly the returned block is taken out of the record', 'erase')
                elif not o.val or not mentions(o.val, lambda u: u == erased[0][2][0]) or o.val == erased[0][2][0]:
                    if not (o.val == erased[0][2][0] and mentions(o.val, lambda u: u[0] == 'res' and u[1].endswith('deref'))):
                        mviol(ctx, 'taken', fi, eng, o, 'the block taken out of the record is not the one returned', 'other')
                ends = [e for e in tr if e[0] == 'if' and mentions(e[1], lambda u: u[0] == 'res' and u[1].rpartition('.')[2] in ('end', 'empty', 'size'))]
                if not ends:
                    mviol(ctx, 'taken', fi, eng, o, 'an empty record is not recognized', 'empty')
            else:
                ctx.ok('taken', 'get_block raises')
                if erased:
                    mviol(ctx, 'taken', fi, eng, o, 'a block is taken out of the record and lost', 'lost')
                if not (o.val and o.val[0] == 'exc' and o.val[1].endswith('KeyError')):
                    mviol(ctx, 'taken', fi, eng, o, 'the end of the record is not reported as KeyError', 'exception')
        if not gives:
            ctx.violate('taken', fi.qual, 'get_block never returns a block', fi.loc())
        for c in mod.classes.values():
            for m in c.methods.values():
                if m.name in ('get_block', 'clear'):
                    continue
                for x in ast.walk(m.node):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in LOST:
                        ctx.violate('taken', m.qual, '%s drops records of modified blocks' % m.short, m.loc(x))
        fi = mod.functions.get('track_writes')
        if fi is None:
            ctx.violate('taken', 'track_writes', 'no track_writes', PYX)
        else:
            for x in ast.walk(fi.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in LOST:
                    ctx.violate('taken', fi.qual, 'track_writes drops records of modified blocks', fi.loc(x))
        fi = mod.functions.get('set_writes_inhibited')
        if fi is not None:
            eng, outs = ctx.run(fi, InhibitPolicy(), PyxMonitor())
            p = [a.arg for a in fi.node.args.args]
            for o in outs:
                ctx.ok('inhibited', 'set_writes_inhibited')
                st = [e for e in o.st.auto if e[0] == 'store']
                if o.kind != 'return' or len(st) != 1 or not st[0][2] or not mentions(st[0][2][0], lambda u: u[0] == 'param' and u[1] == p[0]) \
                        or mentions(st[0][2][0], lambda u: u[0] == 'pure' and u[1] == 'Not'):
                    if not any(e[0] == 'if' for e in o.st.auto):
                        mviol(ctx, 'inhibited', fi, eng, o, 'does not set the flag to the given value', 'value')
        fi = mod.functions.get('set_blocksize')
        if fi is not None:
            eng, outs = ctx.run(fi, InhibitPolicy(), PyxMonitor())
            p = fi.node.args.args[0].arg
            for o in outs:
                ctx.ok('connect', 'set_blocksize')
                if o.kind == 'return' and not any(e[0] == 'setglobal' and e[1] == 'blocksize' and e[2] and e[2][0] == 'param' for e in o.st.auto) \
                        and not any(e[0] == 'if' and e[1][0] == 'eq' and e[2] for e in o.st.auto):
                    mviol(ctx, 'connect', fi, eng, o, 'the block size is not set', 'blocksize')
    finally:
        del ctx.repo.modules['s3ql.sqlite3ext']
    # users
    for m in ctx.repo.modules.values():
        if not m.name.startswith('s3ql'):
            continue
        for f in all_funcs_in(m):
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                    b = ast.unparse(x.func.value)
                    if x.func.attr == 'clear' and 'dirty_blocks' in b or x.func.attr == 'reset' and b.endswith('sqlite3ext'):
                        ctx.violate('taken', f.qual, '%s discards the record of modified blocks' % f.short, f.loc(x))
                    if x.func.attr == 'get_block' and 'dirty' in b and not (f.cls is not None and f.cls.name == 'UploadMetadata'):
                        if f.qual in known():
                            ctx.violate('taken', f.qual, '%s takes blocks out of the record' % f.short, f.loc(x))
                    if x.func.attr == 'set_writes_inhibited' and f.name != 'inhibit_writes' and f.qual in known():
                        ctx.violate('inhibited', f.qual, '%s changes the inhibition of writes' % f.short, f.loc(x))


def known():
    from sa.baseline import known_functions

    return known_functions()


class ConnMonitor(Monitor):
    def init(self):
        return ()

    def step(self, auto, ev, st, eng):
        if ev.kind == 'ret' and ev.name in ('set_blocksize', 'track_writes', 'realpath'):
            return auto + ((ev.name, tuple(ev.args), ev.res),)
        if ev.kind == 'ret' and ev.qual.endswith('apsw.Connection'):
            return auto + (('connect', tuple(ev.args), ev.kw.get('vfs'), ev.res),)
        if ev.kind == 'setattr' and ev.name in ('dirty_blocks', 'conn', 'blocksize', 'file'):
            return auto + (('set', ev.name, ev.res),)
        return auto

    def branch(self, auto, atom, val, st, eng):
        if mentions(atom, lambda u: u[0] == 'param' and u[1] == 'blocksize'):
            return auto + (('if', atom, val),)
        return auto


def connect_rules(ctx):
    fi = ctx.repo.func(DB + '.Connection.__init__')
    eng, outs = ctx.run(fi, InhibitPolicy(), ConnMonitor())
    for o in outs:
        if o.kind != 'return':
            continue
        tr = o.st.auto
        tracked = not any(e[0] == 'if' and ((e[1][0] == 'true' and e[2] is False) or (e[1][0] == 'isnone' and e[2] is True)) for e in tr)
        con = [i for i, e in enumerate(tr) if e[0] == 'connect']
        ctx.ok('connect', 'tracked' if tracked else 'untracked')
        if not con:
            mviol(ctx, 'connect', fi, eng, o, 'no database is opened', 'none')
            continue
        if not tracked:
            continue
        c = tr[con[-1]]
        pre = tr[:con[-1]]
        bsz = [e for e in pre if e[0] == 'set_blocksize']
        trk = [e for e in pre if e[0] == 'track_writes']
        if not bsz or not bsz[-1][1] or bsz[-1][1][0] != ('param', 'blocksize', fi.qual):
            if not bsz or not mentions(bsz[-1][1][0], lambda u: u[0] == 'param' and u[1] == 'blocksize'):
                mviol(ctx, 'connect', fi, eng, o, 'the database is opened before the block size is set', 'blocksize')
        if not trk:
            mviol(ctx, 'connect', fi, eng, o, 'the database is opened before writes to it are tracked', 'track')
            continue
        if not (trk[-1][1] and c[1] and trk[-1][1][0] == c[1][0]):
            mviol(ctx, 'connect', fi, eng, o, 'a different path is tracked than the one opened', 'path')
        elif not mentions(c[1][0], lambda u: u[0] == 'res' and u[1].endswith('realpath')):
            mviol(ctx, 'connect', fi, eng, o, 'the tracked path is not the canonical one used by SQLite', 'realpath')
        if c[2] is None or not mentions(c[2], lambda u: u[0] == 'res' and u[1].endswith('get_vfsname')):
            mviol(ctx, 'connect', fi, eng, o, 'the database is not opened through the tracking file system layer', 'vfs')
        d = [e[2] for e in tr if e[0] == 'set' and e[1] == 'dirty_blocks']
        if not d or d[-1] != trk[-1][2]:
            mviol(ctx, 'connect', fi, eng, o, 'uploads do not see the record of this database', 'dirty_blocks')


# -- the upload


class UploadPolicy(StdPolicy):
    norow = False
    os_raises = False
    await_raises = False
    inline_modules = frozenset()

    def raises(self, ev, eng):
        if ev.kind == 'call' and ev.name == 'get_block':
            return ('builtins.KeyError',)
        return ()

    def inline(self, fi, eng):
        return fi.qual not in known() or (fi.cls is not None and fi.cls.name in ('UploadMetadata', 'DownloadMetadata') and fi.name not in (
            'produce', 'consume', 'finalize'))


class UploadMonitor(Monitor):
    def init(self):
        return ()

    def step(self, auto, ev, st, eng):
        k = ev.kind
        if k == 'iter':
            return auto + (('iter', ev.args[0] if ev.args else ev.recv, ev.res),)
        if k == 'loopexit':
            return auto + (('loopexit', ev.res if ev.res is not None else ev.recv),)
        if k == 'call' and ev.name in ('_BlockUpload', '_BlockJob'):
            a = dict(ev.kw)
            ci = eng.repo.find_class(ev.qual) if hasattr(eng.repo, 'find_class') else None
            for n, v in zip(('blockno',) + (('offset', 'length') if ev.name == '_BlockUpload' else ('seq_no', 'offset')), ev.args):
                a.setdefault(n, v)
            return auto + (('job', ev.res, tuple(sorted(a.items()))),)
        if k == 'call' and ev.name in ('append', 'extend', 'insert', 'add'):
            return auto + (('append', ev.recv, tuple(ev.args)),)
        if k == 'ret' and ev.name == 'get_block':
            return auto + (('got', ev.res),)
        if k == 'fault' and ev.extra == 'get_block':
            return auto + (('empty',),)
        if k == 'ret' and ev.name == 'open':
            return auto + (('open', tuple(ev.args), ev.res),)
        if k in ('call', 'ret') and ev.name in ('seek', 'truncate'):
            return auto + ((ev.name, ev.recv, tuple(ev.args)),) if k == 'call' else auto
        if k == 'ret' and ev.name in ('write_fh', 'readinto_fh'):
            return auto + ((ev.name, tuple(ev.args), tuple(sorted(ev.kw.items())), ev.awaited),)
        if k == 'setattr' and ev.name in ('db_size', 'db_md5', 'total'):
            return auto + (('set', ev.recv, ev.name, ev.res),)
        if k == 'ret' and ev.name in ('sha256_fh', 'get_size', 'getsize', 'first_le_than', 'get_block_objects'):
            return auto + ((ev.name, tuple(ev.args), ev.res),)
        if k == 'exit':
            return auto + (('exit', ev.recv),)
        return auto

    def branch(self, auto, atom, val, st, eng):
        return auto + (('if', atom, val),)


def upload_rules(ctx):
    fi = ctx.repo.func(UPL + '.produce')
    eng, outs = ctx.run(fi, UploadPolicy(), UploadMonitor())
    bsz = size = None
    seen = {'job': 0}
    for o in outs:
        if o.kind != 'return':
            continue
        tr = o.st.auto
        inc = next((e[2] for e in tr if e[0] == 'if' and is_truth_of(e[1], 'incremental')), None)
        got = [e[1] for e in tr if e[0] == 'got']
        if inc:
            ctx.ok('taken', 'incremental upload')
            if ('empty',) not in tr:
                mviol(ctx, 'upload', fi, eng, o, 'an incremental upload does not take all modified blocks', 'partial')
        jobs = [(i, e) for i, e in enumerate(tr) if e[0] == 'job']
        for i, e in jobs:
            seen['job'] += 1
            ctx.ok('upload', 'job')
            a = dict(e[2])
            if not job_ok(ctx, fi, eng, o, a):
                continue
            if not any(x[0] == 'append' and e[1] in x[2] for x in tr[i:]) and not in_comp(o, e[1]):
                mviol(ctx, 'upload', fi, eng, o, 'a block is not handed to a worker', 'dropped')
        # one job per block
        its = [e for e in tr if e[0] == 'iter']
        last = its[-1][2] if its else None
        for j, e in enumerate(tr):
            if e[0] != 'iter' or e[2] is None:
                continue
            end = next((k for k in range(j + 1, len(tr)) if tr[k][0] in ('iter', 'loopexit')), len(tr))
            if any(x[0] == 'got' for x in tr[j:end]):
                continue
            if not any(x[0] == 'job' for x in tr[j:end]) and is_block_iter(e, outs) and not empty_block(tr[j:end], e[2], o):
                mviol(ctx, 'upload', fi, eng, o, 'a recorded block gets no upload', 'skipped')
        if got and not jobs and not empty_total(tr) and not any(e[0] == 'loopexit' for e in tr):
            mviol(ctx, 'upload', fi, eng, o, 'blocks are taken out of the record and not uploaded', 'lost')
        if inc is False and not jobs and not empty_total(tr) and not any(e[0] == 'loopexit' for e in tr):
            mviol(ctx, 'upload', fi, eng, o, 'a full upload does not cover the database', 'full')
    if not seen['job']:
        ctx.violate('upload', fi.qual, 'no block is ever handed to a worker', fi.loc())
    full_range(ctx, fi, eng, outs)
    consume_upload(ctx)
    finalize_upload(ctx)


def empty_block(seg, b, o):
    """Is the block skipped because it lies completely behind the end of the file?"""
    for e in seg:
        if e[0] != 'if':
            continue
        t, v = e[1], e[2]
        for bs in {u for x in seg if x[0] == 'if' for u in bss(x[1])}:
            for d in dbsizes(o):
                off = ('pure', 'Mult', (bs, b))
                for off in (('pure', 'Mult', (bs, b)), ('pure', 'Mult', (b, bs))):
                    rem = ('pure', 'Sub', (d, off))
                    if t[0] == 'lt' and not v and lin_diff(('pure', 'Sub', (t[2], t[1])), rem) == 0:
                        return True
                    if t[0] == 'eq' and v and any(is_const(x) and cval(x) == 0 for x in t[1:3]) and any(length_ok(x, bs, off, o) for x in t[1:3]):
                        return True
    return False


def bss(t):
    res = []

    def f(u):
        if is_bs(u):
            res.append(u)
        return False
    mentions(t, f)
    return res


def is_truth_of(atom, name):
    return atom[0] == 'true' and is_attr(atom[1], name)


def empty_total(tr):
    """Was the path cut short because there are no blocks?"""
    for e in tr:
        if e[0] != 'if':
            continue
        t, v = e[1], e[2]
        if t[0] == 'eq' and v and any(is_const(x) and cval(x) == 0 for x in t[1:3]):
            return True
        if t[0] == 'true' and not v and mentions(t[1], lambda u: u[0] in ('obj',) or is_attr(u, 'total') or (u[0] == 'res' and u[1].endswith('len'))):
            return True
        if t[0] == 'lt' and (v and is_const(t[2]) and cval(t[2]) == 1 or not v and is_const(t[1]) and cval(t[1]) == 0):
            return True
    return False


def is_block_iter(e, outs):
    """Do other paths create a job from elements of this collection?"""
    return any(x[0] == 'job' and mentions(dict(x[2]).get('blockno', NONE), lambda u: u == e[2] or (u[0] == 'elem' and e[2][0] == 'elem' and u[1] == e[2][1]))
               for o in outs for x in o.st.auto)


def in_comp(o, job):
    return o.val is not None and mentions(o.val, lambda u: u == job)


def job_ok(ctx, fi, eng, o, a):
    b, off, ln = a.get('blockno'), a.get('offset'), a.get('length')
    ok = True
    if off is None or b is None:
        return True
    bs = bsize_of(off, b)
    if bs is None:
        mviol(ctx, 'upload', fi, eng, o, 'a block is read from the wrong position (%s)' % repr(off)[:600], 'offset')
        return False
    if ln is None:
        return True
    if not length_ok(ln, bs, off, o):
        mviol(ctx, 'upload', fi, eng, o, 'the length of a block is not its complete content (%s)' % show(ln)[:90], 'length')
        ok = False
    return ok


def bsize_of(off, b):
    """The block size if off = b * block size."""
    if off[0] == 'pure' and off[1] == 'Mult' and len(off[2]) == 2:
        x, y = off[2]
        if x == b and is_bs(y):
            return y
        if y == b and is_bs(x):
            return x
    return None


def is_bs(t):
    return is_attr(t, 'blocksize') or is_attr(t, 'metadata_block_size')


def is_dbsize(t):
    return is_attr(t, 'db_size') or (t[0] == 'res' and t[1].rpartition('.')[2] in ('get_size', 'getsize'))


def minmax(t):
    """t as nested ('min'|'max', set) with other terms as leaves."""
    k = None
    args = ()
    if t[0] == 'res' and t[1].rpartition('.')[2] in ('min', 'max'):
        k, args = t[1].rpartition('.')[2], t[3]
    elif t[0] == 'pure' and t[1] in ('min', 'max'):
        k, args = t[1], t[2]
    if k is None or len(args) < 2:
        return t
    return (k, frozenset(minmax(a) for a in args))


def length_ok(ln, bs, off, o):
    m = minmax(ln)

    def is_rem(t):
        return isinstance(t, tuple) and t and t[0] == 'pure' and t[1] == 'Sub' and len(t[2]) == 2 and is_dbsize(t[2][0]) and t[2][1] == off

    def zero(t):
        return is_const(t) and cval(t) == 0

    def pos_rem(t):
        """max(0, rem) or rem"""
        if is_rem(t):
            return True
        return isinstance(t, tuple) and t[0] == 'max' and isinstance(t[1], frozenset) and len(t[1]) == 2 and any(is_rem(x) for x in t[1]) \
            and any(zero(x) for x in t[1] if not isinstance(x[1], frozenset))

    if isinstance(m, tuple) and m[0] == 'min' and isinstance(m[1], frozenset):
        return len(m[1]) == 2 and bs in m[1] and any(pos_rem(x) for x in m[1] if x != bs)
    if isinstance(m, tuple) and m[0] == 'max' and isinstance(m[1], frozenset):
        rest = [x for x in m[1] if not (not isinstance(x[1], frozenset) and zero(x))]
        if len(m[1]) == 2 and len(rest) == 1 and isinstance(rest[0][1], frozenset) and rest[0][0] == 'min' and len(rest[0][1]) == 2 \
            and bs in rest[0][1] and any(pos_rem(x) for x in rest[0][1] if x != bs):
            return True
    # decided by comparisons on this path
    facts = [(e[1], e[2]) for e in o.st.auto if e[0] == 'if' and e[1][0] == 'lt']

    def diff_is(t, x, y, pred):
        """t (lt a b) compares x and y: b - a == y - x"""
        return lin_diff(('pure', 'Sub', (t[2], t[1])), ('pure', 'Sub', (y, x))) == 0

    rems = [('pure', 'Sub', (d, off)) for d in dbsizes(o)]
    for rem in rems:
        if ln == bs:
            for t, v in facts:
                if diff_is(t, bs, rem, None) and v or diff_is(t, rem, bs, None) and not v:
                    return True
        if lin_diff(ln, rem) == 0 or isinstance(m, tuple) and m[0] == 'max' and isinstance(m[1], frozenset) and len(m[1]) == 2 and any(
                zero(x) for x in m[1] if not isinstance(x[1], frozenset)) and any(lin_diff(x, rem) == 0 for x in m[1] if not isinstance(x[1], frozenset)):
            for t, v in facts:
                if diff_is(t, bs, rem, None) and not v or diff_is(t, rem, bs, None) and v:
                    return True
        if is_const(ln) and cval(ln) == 0:
            for t, v in facts:
                if lin_diff(('pure', 'Sub', (t[2], t[1])), rem) == 0 and not v:
                    return True
    return False


def dbsizes(o):
    res = []
    for e in o.st.auto:
        if e[0] == 'set' and e[2] == 'db_size':
            res += [('attr', e[1], 'db_size'), e[3]]
        if e[0] in ('get_size', 'getsize'):
            res.append(e[2])
    return res


def full_range(ctx, fi, eng, outs):
    """A full upload enumerates all blocks: range(ceil(size / blocksize))."""
    for o in outs:
        tr = o.st.auto
        for e in tr:
            if e[0] == 'set' and e[2] == 'db_size' and e[1][0] == 'self':
                ctx.ok('upload', 'measured size')
                if not (e[3][0] == 'res' and e[3][1].rpartition('.')[2] in ('get_size', 'getsize')):
                    mviol(ctx, 'upload', fi, eng, o, 'the size of the database is not taken from the file', 'measured size')
        if not any(e[0] == 'if' and is_truth_of(e[1], 'incremental') and e[2] is False for e in tr):
            continue
        its = [e for e in tr if e[0] == 'iter' and e[2] is not None]
        for e in its:
            if not is_block_iter(e, outs):
                continue
            ctx.ok('upload', 'full')
            if not mentions(e[2], is_full_range):
                mviol(ctx, 'upload', fi, eng, o, 'a full upload does not enumerate all blocks of the file', 'range')


def is_full_range(u):
    if u[0] != 'res' and u[0] != 'pure' or not str(u[1]).endswith('range'):
        return False
    args = u[3] if u[0] == 'res' else u[2]
    if len(args) == 2 and is_const(args[0]) and cval(args[0]) == 0:
        args = args[1:]
    if len(args) != 1:
        return False
    n = args[0]

    def ceil_of(t):
        """t = ceil(size/bs)"""
        if t[0] in ('res', 'pure') and str(t[1]).endswith('ceil'):
            a = (t[3] if t[0] == 'res' else t[2])[-1]
            return a[0] == 'pure' and a[1] == 'Div' and is_dbsize(a[2][0]) and is_bs(a[2][1])
        if t[0] == 'pure' and t[1] == 'FloorDiv' and is_bs(t[2][1]):
            return any(lin_diff(t[2][0], ('pure', 'Sub', (('pure', 'Add', (d, t[2][1])), const(1)))) == 0 for d in sizes_in(t))
        if t[0] == 'pure' and t[1] == 'USub':
            a = t[2][0]
            return a[0] == 'pure' and a[1] == 'FloorDiv' and is_bs(a[2][1]) and a[2][0][0] == 'pure' and a[2][0][1] == 'USub' and is_dbsize(a[2][0][2][0])
        return False

    return ceil_of(n)


def sizes_in(t):
    res = []

    def f(u):
        if is_dbsize(u):
            res.append(u)
        return False
    mentions(t, f)
    return res


def consume_upload(ctx):
    fi = ctx.repo.func(UPL + '.consume')
    eng, outs = ctx.run(fi, UploadPolicy(), UploadMonitor())
    n = 0
    for o in outs:
        tr = o.st.auto
        fh = {e[2]: e[1] for e in tr if e[0] == 'open'}
        for j, e in enumerate(tr):
            if e[0] != 'iter' or e[2] is None:
                continue
            end = next((k for k in range(j + 1, len(tr)) if tr[k][0] in ('iter', 'loopexit')), len(tr))
            body = tr[j + 1:end]
            job = e[2]
            w = [x for x in body if x[0] == 'write_fh']
            n += 1
            ctx.ok('upload', 'worker')
            if len(w) != 1 or not w[0][3]:
                mviol(ctx, 'upload', fi, eng, o, 'a worker does not upload the block it was given', 'worker')
                continue
            a, kw = w[0][1], dict(w[0][2])
            f = a[1] if len(a) > 1 else kw.get('fh')
            name = a[0] if a else kw.get('key')
            pos = body.index(w[0])
            seeks = [x for x in body[:pos] if x[0] == 'seek' and x[1] == f]
            if f not in fh or not fh[f] or not is_attr(fh[f][0], 'file') or not (len(fh[f]) > 1 and cval_in(fh[f][1], ('rb', 'rb+', 'r+b'))):
                mviol(ctx, 'upload', fi, eng, o, 'the worker does not read the database file itself', 'file')
            if (not seeks or seeks[-1][2] != (('attr', job, 'offset'),)) and kw.get('offset', kw.get('off')) != ('attr', job, 'offset'):
                mviol(ctx, 'upload', fi, eng, o, 'the worker does not read from the position of the block', 'seek')
            ln = kw.get('len_', a[3] if len(a) > 3 else None)
            if ln != ('attr', job, 'length'):
                mviol(ctx, 'upload', fi, eng, o, 'the worker does not upload the length of the block', 'len')
            if name is None or name[0] != 'fmt' or 's3ql_metadata_' not in str(name[1]) or tuple(name[2]) != (
                    ('attr', job, 'blockno'), ('attr', ('attr', ('self', UPL), 'params'), 'seq_no')):
                if not (name is not None and name[0] == 'fmt' and len(name[2]) == 2 and name[2][0] == ('attr', job, 'blockno')
                        and is_attr(name[2][1], 'seq_no') and is_attr(name[2][1][1], 'params')):
                    mviol(ctx, 'upload', fi, eng, o, 'the block is stored under a wrong name (%s)' % show(name)[:80], 'name')
    if not n:
        ctx.violate('upload', fi.qual, 'the workers upload nothing', fi.loc())


def cval_in(t, vs):
    return is_const(t) and cval(t) in vs


def finalize_upload(ctx):
    fi = ctx.repo.func(UPL + '.finalize')
    eng, outs = ctx.run(fi, UploadPolicy(), UploadMonitor())
    for o in outs:
        if o.kind != 'return':
            continue
        tr = o.st.auto
        ctx.ok('upload', 'finalize')
        upd = next((e[2] for e in tr if e[0] == 'if' and is_truth_of(e[1], 'update_params')), None)
        sets = {e[2]: e[3] for e in tr if e[0] == 'set' and is_attr(e[1], 'params')}
        if upd is not True and sets:
            mviol(ctx, 'upload', fi, eng, o, 'size and checksum are recorded although the upload is preliminary', 'preliminary')
        if upd is not False:
            if 'db_size' not in sets or not is_dbsize(sets['db_size']):
                mviol(ctx, 'upload', fi, eng, o, 'the size of the database is not recorded', 'db_size')
            if 'db_md5' not in sets or not mentions(sets['db_md5'], lambda u: u[0] == 'res' and u[1].endswith('sha256_fh') and any(
                    e[0] == 'open' and e[2] in u[3] and e[1] and is_attr(e[1][0], 'file') for e in tr)):
                mviol(ctx, 'upload', fi, eng, o, 'the checksum of the database is not recorded', 'db_md5')


# -------------------------------------------------------------------------------------------
# M07

DWN = DB + '.DownloadMetadata'
LOCAL_OK = ('s3ql.mount.get_metadata', 's3ql.fsck.main_async')


class DownloadPolicy(UploadPolicy):
    def raises(self, ev, eng):
        if ev.kind == 'call' and ev.name == 'first_le_than':
            return ('builtins.ValueError',)
        if ev.kind == 'call' and ev.name in ('unlink', 'remove'):
            return ('builtins.FileNotFoundError',)
        return ()


class DownloadMonitor(UploadMonitor):
    def step(self, auto, ev, st, eng):
        if ev.kind == 'call' and ev.name in ('unlink', 'remove') and ev.args:
            return auto + (('unlink', ev.args[0]),)
        if ev.kind == 'ret' and ev.name == 'download_metadata':
            return auto + (('download', tuple(ev.args), tuple(sorted(ev.kw.items())), ev.awaited),)
        if ev.kind == 'call' and ev.name in ('rename', 'replace', 'rmtree') and ev.args:
            return auto + ((ev.name, ev.args[0]),)
        return super().step(auto, ev, st, eng)


@check('M07', explanation="""Path analysis of the download pipeline: for every block the newest copy not newer than the version is chosen (the
selection function itself is analysed: largest element not above the limit), blocks beyond the recorded size are left out, each worker writes its
block at its own offset, and the result is cut to size and accepted only if the checksum matches, unless in the emergency mode, which only the
checker uses for file systems that were in use. Left-overs of a previous local database are removed before the download, and cached blocks of an earlier session are removed or set aside before
the downloaded metadata is used.""")
def m07(ctx):
    ctx.rule('choose', 'for each block the newest copy not newer than the version is downloaded')
    ctx.rule('bounds', 'blocks beyond the recorded size are ignored, all others are required')
    ctx.rule('place', 'each block is written to its own position of the file')
    ctx.rule('verify', 'size and checksum of the result are enforced')
    ctx.rule('failsafe', 'verification is left out only for file systems that were not unmounted')
    ctx.rule('fresh', 'nothing of a previous local copy becomes part of the result')
    newest_rules(ctx, 'choose')
    listing_rules(ctx, 'choose')
    produce_download(ctx)
    consume_download(ctx)
    finalize_download(ctx)
    callers_download(ctx)
    for r in ctx.rules:
        ctx.floor(r)


def newest_rules(ctx, rule):
    """first_le_than returns the largest element that is not above the threshold."""
    fi = ctx.repo.func(DB + '.first_le_than')
    seq, thr = [a.arg for a in fi.node.args.args][:2]
    eng, outs = ctx.run(fi, UploadPolicy(), UploadMonitor())
    P = lambda n: ('param', n, fi.qual)
    rets = 0
    for o in outs:
        facts = [(e[1], e[2]) for e in o.st.auto if e[0] == 'if']
        ctx.ok(rule, 'first_le_than path')
        if o.kind == 'raise':
            if not (o.val and o.val[0] == 'exc' and o.val[1].endswith('ValueError')):
                mviol(ctx, rule, fi, eng, o, 'a missing version is not reported as ValueError', 'exception')
            continue
        rets += 1
        v = o.val
        good = False
        if v and v[0] == 'elem' and descending(v[1], P(seq)):
            inside = (('lt', P(thr), v), False) in facts or (('lt', v, ('pure', 'Add', (P(thr), const(1)))), True) in facts
            earlier = [e[2] for e in o.st.auto if e[0] == 'iter' and e[2] is not None and e[2] != v]
            good = inside and all((('lt', P(thr), x), True) in facts for x in earlier)
        elif v and v[0] in ('pure', 'res') and str(v[1]).endswith('max'):
            a = v[2] if v[0] == 'pure' else v[3]
            comp = a[0] if a else None
            good = len(a) == 1 and comp[0] == 'pure' and str(comp[1]).startswith('comp') and comp[2][0] == ('elem', P(seq), 0) \
                and (('lt', P(thr), comp[2][0]), False) in facts
        elif v and v[0] == 'item' and v[1] == P(seq):
            # seq[bisect_right(seq, threshold) - 1], guarded
            ix = v[2]
            b = next((u for u in subterms(ix) if u[0] == 'res' and u[1].rpartition('.')[2] in ('bisect_right', 'bisect') and u[3][:2] == (P(seq), P(thr))), None)
            good = b is not None and lin_diff(ix, b) == -1 and any(
                t[0] == 'true' and t[1] == b and val or t[0] == 'eq' and b in t[1:3] and not val or t[0] == 'lt' and t[2] == b and val
                or t[0] == 'lt' and t[1] == b and not val for t, val in facts)
        if not good:
            mviol(ctx, rule, fi, eng, o, 'the copy chosen may not be the newest one that is not newer than the version', 'choice')
    if not rets:
        ctx.violate(rule, fi.qual, 'first_le_than never finds a version', fi.loc())


def subterms(t):
    res = []

    def f(u):
        res.append(u)
        return False
    mentions(t, f)
    return res


def descending(t, seq):
    """Is t the sorted list seq in descending order?"""
    if t[0] == 'pure' and t[1] == 'slice' or t[0] == 'slice':
        a = t[2] if t[0] == 'pure' else t[1:]
        return a[0] == seq and a[1] == NONE and a[2] == NONE and is_const(a[3]) and cval(a[3]) == -1
    if t[0] in ('pure', 'res') and str(t[1]).endswith('reversed'):
        a = t[2] if t[0] == 'pure' else t[3]
        return a[0] == seq
    if t[0] in ('pure', 'res') and str(t[1]).endswith('sorted'):
        return 'reverse' in repr(t) and "'reverse', ('const', True" in repr(t)
    return False


class ListingMonitor(UploadMonitor):
    def step(self, auto, ev, st, eng):
        if ev.kind == 'ret' and ev.name in ('match', 'fullmatch', 'list', 'group'):
            return auto + ((ev.name, ev.recv, tuple(ev.args), ev.res),)
        if ev.kind == 'call' and ev.name == 'sort':
            return auto + (('sort', ev.recv, bool(ev.kw)),)
        return super().step(auto, ev, st, eng)


def listing_rules(ctx, rule):
    """get_block_objects returns the versions of each block in ascending order."""
    fi = ctx.repo.func(DB + '.get_block_objects')
    eng, outs = ctx.run(fi, UploadPolicy(), ListingMonitor())
    found = 0
    for o in outs:
        tr = o.st.auto
        if o.kind != 'return':
            continue
        ctx.ok(rule, 'get_block_objects path')
        lists = [e for e in tr if e[0] == 'list']
        if not lists or not lists[0][2] or not is_const(lists[0][2][0]) or not 's3ql_metadata_'.startswith(str(cval(lists[0][2][0]))):
            mviol(ctx, rule, fi, eng, o, 'not all metadata objects are listed', 'list')
        add = [e for e in tr if e[0] == 'append']
        names = [(i, e) for i, e in enumerate(tr) if e[0] == 'iter' and e[2] is not None and lists and e[2][0] == 'elem' and e[2][1] == lists[0][3]]
        for i, e in names:
            end = next((k for k in range(i + 1, len(tr)) if tr[k][0] == 'iter' and tr[k][2] is not None and tr[k][2][0] == 'elem'
                        and tr[k][2][1] == lists[0][3] or tr[k][0] == 'loopexit'), len(tr))
            seg = tr[i:end]
            a = [x for x in seg if x[0] == 'append']
            hit = [x for x in seg if x[0] in ('match', 'fullmatch')]
            miss = hit and any(x[0] == 'if' and mentions(x[1], lambda u: u == hit[0][3]) and (x[1][0] == 'true' and not x[2] or x[1][0] == 'isnone' and x[2])
                               for x in seg)
            if not a:
                if not miss:
                    mviol(ctx, rule, fi, eng, o, 'a metadata object is left out', 'skipped')
                continue
            found += 1
            g = [x for x in seg if x[0] == 'group']
            c, v = a[0][1], a[0][2][0]
            g1 = [x[3] for x in g if x[2] and is_const(x[2][0]) and cval(x[2][0]) == 1]
            g2 = [x[3] for x in g if x[2] and is_const(x[2][0]) and cval(x[2][0]) == 2]
            if g1 and g2:
                if not (mentions(c, lambda u: u == g1[0] and g1[0] != g2[0] or u in g1) and hexint(v, g2)):
                    mviol(ctx, rule, fi, eng, o, 'block and version number of an object are not taken from its name', 'parse')
        if add and names:
            out = o.val
            srt = [e for e in tr if e[0] == 'sort' and not e[2]]
            if not srt and not mentions(out, lambda u: u[0] in ('pure', 'res') and str(u[1]).endswith('sorted')):
                exits = [e for e in tr if e[0] == 'iter' and e[2] is not None and e[2][0] == 'elem' and e[2][1] != lists[0][3]]
                if exits or not any(x[0] == 'sort' for oo in outs for x in oo.st.auto):
                    mviol(ctx, rule, fi, eng, o, 'the versions of a block are not in ascending order', 'unsorted')
            elif any(e[0] == 'sort' and e[2] for e in tr):
                mviol(ctx, rule, fi, eng, o, 'the versions of a block are not in ascending order', 'order')
    if not found:
        ctx.violate(rule, fi.qual, 'get_block_objects finds no objects', fi.loc())
    # name and pattern belong together
    m = ctx.repo.modules[DB]
    fmt = m.consts.get('METADATA_OBJ_NAME')
    rx = m.assigns.get('METADATA_OBJ_RE')
    pat = next((c.value for c in ast.walk(rx) if isinstance(c, ast.Constant) and isinstance(c.value, str)), None) if rx is not None else None
    if isinstance(fmt, str) and pat is not None:
        ctx.ok(rule, 'object name')
        mt = re.match(pat, fmt % (0xabc, 0xdef)) if fmt.count('%') == 2 else None
        if mt is None or len(mt.groups()) < 2 or (int(mt.group(1), 16), int(mt.group(2), 16)) != (0xabc, 0xdef):
            ctx.violate(rule, DB + '.METADATA_OBJ_NAME', 'names of metadata objects are not recognized when listing them', m.rel)


def hexint(t, gs):
    return mentions(t, lambda u: u in gs) and (t[0] in ('pure', 'res') and str(t[1]).endswith('int')) and '16' in repr(t)


def blk(e):
    """(blockno, candidates) of an iteration over the block list."""
    el = e[2]
    if el is None or el[0] != 'elem':
        return None
    src = el[1]
    if src[0] == 'res' and src[1].endswith('.items') and mentions(src, lambda u: u[0] == 'res' and u[1].endswith('get_block_objects')):
        return ('item', el, const(0)), ('item', el, const(1))
    if src[0] in ('pure', 'res') and str(src[1]).endswith('sorted') and mentions(src, lambda u: u[0] == 'res' and u[1].endswith('.items')):
        return ('item', el, const(0)), ('item', el, const(1))
    if src[0] == 'res' and src[1].endswith('get_block_objects') or src[0] == 'res' and src[1].endswith('.keys'):
        base = src if src[1].endswith('get_block_objects') else src[3][0]
        return el, ('item', base, el)
    return None


def produce_download(ctx):
    fi = ctx.repo.func(DWN + '.produce')
    eng, outs = ctx.run(fi, DownloadPolicy(), DownloadMonitor())
    jobs = skips = 0
    for o in outs:
        tr = o.st.auto
        fs = [e[2] for e in tr if e[0] == 'if' and is_truth_of(e[1], 'failsafe')]
        failsafe = fs[-1] if fs else None
        for i, e in enumerate(tr):
            if e[0] != 'iter' or blk(e) is None:
                continue
            b, cand = blk(e)
            end = next((k for k in range(i + 1, len(tr)) if tr[k][0] in ('iter', 'loopexit')), len(tr))
            last = end == len(tr)
            seg = tr[i:end]
            job = [x for x in seg if x[0] == 'job']
            segfs = next((x[2] for x in seg if x[0] == 'if' and is_truth_of(x[1], 'failsafe')), failsafe)
            beyond_, inside_ = bound_facts(seg, b)
            if any(x[0] == 'fault' for x in seg):
                pass
            if not job:
                if last and o.kind == 'raise':
                    continue
                skips += 1
                ctx.ok('bounds', 'skipped')
                if not beyond_:
                    mviol(ctx, 'bounds', fi, eng, o, 'a block inside the recorded size is left out', 'skip')
                if segfs is not False:
                    mviol(ctx, 'bounds', fi, eng, o, 'a block is left out although the recorded size is not reliable', 'skip-failsafe')
                continue
            jobs += 1
            a = dict(job[0][2])
            ctx.ok('choose', 'job')
            if segfs is not True and not inside_:
                mviol(ctx, 'bounds', fi, eng, o, 'a block beyond the recorded size becomes part of the result', 'beyond')
            sel = [x for x in seg if x[0] == 'first_le_than']
            want = sel[-1][2] if sel else None
            right = sel and sel[-1][1][0] == cand and is_attr(sel[-1][1][1], 'seq_no') and is_attr(sel[-1][1][1][1], 'params')
            if a.get('blockno') != b:
                mviol(ctx, 'choose', fi, eng, o, 'the job is for another block', 'blockno')
            if a.get('seq_no') != want or not right:
                if segfs is not True:
                    mviol(ctx, 'choose', fi, eng, o, 'a copy is downloaded that need not belong to the version', 'seq_no')
                elif not (a.get('seq_no') and mentions(a['seq_no'], lambda u: u == cand)):
                    mviol(ctx, 'choose', fi, eng, o, 'the copy downloaded is none of the existing ones', 'seq_no-failsafe')
            if a.get('offset') is None or bsize_of(a['offset'], b) is None:
                mviol(ctx, 'place', fi, eng, o, 'the block is written to the wrong position', 'offset')
            ctx.ok('place', 'job')
            if not any(x[0] == 'append' and job[0][1] in x[2] for x in tr[i:]) and not in_comp(o, job[0][1]):
                mviol(ctx, 'bounds', fi, eng, o, 'a block is not handed to a worker', 'dropped')
        if o.kind == 'return':
            fr = [i for i, e in enumerate(tr) if e[0] == 'open' and e[1] and is_attr(e[1][0], 'db_file') and len(e[1]) > 1
                  and is_const(e[1][1]) and str(cval(e[1][1])).startswith(('w', 'x'))]
            ctx.ok('fresh', 'download')
            if not fr:
                mviol(ctx, 'fresh', fi, eng, o, 'the local file is not emptied before blocks are written', 'truncate')
            wal = [i for i, e in enumerate(tr) if e[0] == 'unlink' and is_suffix(e[1], 'db_file', '-wal')]
            if not wal:
                mviol(ctx, 'fresh', fi, eng, o, 'a write-ahead log of the previous local database is applied to the result', 'wal')
    if not jobs:
        ctx.violate('choose', fi.qual, 'no block is ever downloaded', fi.loc())


def is_suffix(t, attr, suf):
    return mentions(t, lambda u: is_attr(u, attr)) and mentions(t, lambda u: is_const(u) and isinstance(cval(u), str) and cval(u).endswith(suf)
                                                              or u[0] == 'fmt' and str(u[1]).endswith(suf))


def bound_facts(seg, b):
    """(block starts at or behind the recorded size, block starts before it)"""
    beyond_ = inside_ = False
    for e in seg:
        if e[0] != 'if' or e[1][0] != 'lt':
            continue
        t, v = e[1], e[2]
        for bs in bss(t):
            for d in sizes_in(t):
                for off in (('pure', 'Mult', (bs, b)), ('pure', 'Mult', (b, bs))):
                    if lin_diff(('pure', 'Sub', (t[2], t[1])), ('pure', 'Sub', (d, off))) == 0:
                        beyond_, inside_ = beyond_ or not v, inside_ or v
                    if lin_diff(('pure', 'Sub', (t[2], t[1])), ('pure', 'Add', (('pure', 'Sub', (off, d)), const(1)))) == 0:
                        beyond_, inside_ = beyond_ or v, inside_ or not v
        # blockno >= ceil(size / bs)
        for x, y, vv in ((t[1], t[2], v), (t[2], t[1], None)):
            if vv is not None and x == b and is_ceil(y, 0):
                inside_, beyond_ = inside_ or v, beyond_ or not v
            if vv is None and x == b and is_ceil(y, -1):
                beyond_, inside_ = beyond_ or v, inside_ or not v
    return beyond_, inside_


def is_ceil(t, d):
    """t = ceil(size / block size) + d?"""
    for u in subterms(t):
        if u[0] in ('res', 'pure') and str(u[1]).endswith('ceil'):
            a = (u[3] if u[0] == 'res' else u[2])[-1]
            if a[0] == 'pure' and a[1] == 'Div' and is_dbsize(a[2][0]) and is_bs(a[2][1]) and lin_diff(t, u) == d:
                return True
        if u[0] == 'pure' and u[1] == 'FloorDiv' and is_bs(u[2][1]):
            for s in sizes_in(u):
                for num in (('pure', 'Add', (s, ('pure', 'Sub', (u[2][1], const(1))))),):
                    if lin_diff(u[2][0], num) == 0 and lin_diff(t, u) == d:
                        return True
                if lin_diff(u[2][0], ('pure', 'Sub', (s, const(1)))) == 0 and lin_diff(t, u) == d + 1:
                    return True
    return False


def consume_download(ctx):
    fi = ctx.repo.func(DWN + '.consume')
    eng, outs = ctx.run(fi, UploadPolicy(), UploadMonitor())
    n = 0
    for o in outs:
        tr = o.st.auto
        fh = {e[2]: e[1] for e in tr if e[0] == 'open'}
        for j, e in enumerate(tr):
            if e[0] != 'iter' or e[2] is None:
                continue
            end = next((k for k in range(j + 1, len(tr)) if tr[k][0] in ('iter', 'loopexit')), len(tr))
            body, job = tr[j + 1:end], e[2]
            w = [x for x in body if x[0] == 'readinto_fh']
            n += 1
            ctx.ok('place', 'worker')
            if len(w) != 1 or not w[0][3]:
                mviol(ctx, 'place', fi, eng, o, 'a worker does not download the block it was given', 'worker')
                continue
            a, kw = w[0][1], dict(w[0][2])
            f = a[1] if len(a) > 1 else kw.get('fh')
            name = a[0] if a else kw.get('key')
            seeks = [x for x in body[:body.index(w[0])] if x[0] == 'seek' and x[1] == f]
            if f not in fh or not fh[f] or not is_attr(fh[f][0], 'db_file') or not (len(fh[f]) > 1 and cval_in(fh[f][1], ('rb+', 'r+b'))):
                mviol(ctx, 'place', fi, eng, o, 'the worker does not write into the database file through its own handle', 'file')
            if not seeks or seeks[-1][2] != (('attr', job, 'offset'),):
                mviol(ctx, 'place', fi, eng, o, 'the worker does not write to the position of the block', 'seek')
            if name is None or name[0] != 'fmt' or 's3ql_metadata_' not in str(name[1]) or tuple(name[2]) != (
                    ('attr', job, 'blockno'), ('attr', job, 'seq_no')):
                mviol(ctx, 'place', fi, eng, o, 'the worker downloads a different object', 'name')
    if not n:
        ctx.violate('place', fi.qual, 'the workers download nothing', fi.loc())


def finalize_download(ctx):
    fi = ctx.repo.func(DWN + '.finalize')
    eng, outs = ctx.run(fi, UploadPolicy(), UploadMonitor())
    n = 0
    for o in outs:
        tr = o.st.auto
        fs = next((e[2] for e in tr if e[0] == 'if' and is_truth_of(e[1], 'failsafe')), None)
        tru = [(i, e) for i, e in enumerate(tr) if e[0] == 'truncate']
        sha = [(i, e) for i, e in enumerate(tr) if e[0] == 'sha256_fh']
        if fs is True:
            continue
        n += 1
        ctx.ok('verify', 'finalize path')
        if not tru or not tru[0][1][2] or not is_dbsize(tru[0][1][2][0]):
            mviol(ctx, 'verify', fi, eng, o, 'the file is not cut to the recorded size', 'truncate')
            continue
        if not sha or sha[0][0] < tru[0][0]:
            mviol(ctx, 'verify', fi, eng, o, 'the checksum is not that of the final file', 'checksum')
            continue
        eqs = [(e[1], e[2]) for e in tr if e[0] == 'if' and e[1][0] == 'eq' and mentions(e[1], lambda u: is_attr(u, 'db_md5'))
               and mentions(e[1], lambda u: u == sha[0][1][2])]
        if o.kind == 'return' and not any(v for _, v in eqs):
            mviol(ctx, 'verify', fi, eng, o, 'a database with a wrong checksum is accepted', 'mismatch')
        if o.kind == 'raise' and any(v for _, v in eqs):
            mviol(ctx, 'verify', fi, eng, o, 'a database with the right checksum is rejected', 'match')
    if not n:
        ctx.violate('verify', fi.qual, 'the result is never verified', fi.loc())
    # download_metadata hands over only a finished download
    fi = ctx.repo.func(DB + '.download_metadata')
    eng, outs = ctx.run(fi, RunPolicy(), RunMonitor())
    for o in outs:
        if o.kind != 'return':
            continue
        tr = o.st.auto
        ctx.ok('verify', 'download_metadata')
        new = [e for e in tr if e[0] == 'op']
        run = [i for i, e in enumerate(tr) if e[0] == 'run' and e[2]]
        opn = [i for i, e in enumerate(tr) if e[0] == 'connection']
        if not new or not run or opn and opn[0] < run[0]:
            mviol(ctx, 'verify', fi, eng, o, 'the database is handed over before the download has finished', 'early')
            continue
        kw = dict(new[-1][2])
        names = ('backend', 'db_file', 'params', 'failsafe')
        for nm, v in zip(names, new[-1][1]):
            kw[nm] = v
        for nm in names:
            if kw.get(nm) != ('param', nm, fi.qual) and not (nm == 'db_file' and kw.get(nm) is not None and kw[nm] != NONE):
                mviol(ctx, 'verify', fi, eng, o, 'the download is done with a different %s' % nm, nm)


class RunPolicy(UploadPolicy):
    def inline(self, fi, eng):
        return fi.qual not in known()


class RunMonitor(Monitor):
    def init(self):
        return ()

    def step(self, auto, ev, st, eng):
        if ev.kind == 'call' and ev.name == 'DownloadMetadata':
            return auto + (('op', tuple(ev.args), tuple(sorted(ev.kw.items()))),)
        if ev.kind == 'ret' and ev.name == 'run':
            return auto + (('run', ev.recv, ev.awaited),)
        if ev.kind in ('call', 'ret') and ev.qual.endswith('database.Connection') and (not auto or auto[-1][0] != 'connection'):
            return auto + (('connection', tuple(ev.args)),)
        return auto


def callers_download(ctx):
    n = 0
    for m in ctx.repo.modules.values():
        if not m.name.startswith('s3ql'):
            continue
        for f in all_funcs_in(m):
            calls = [c for c in ast.walk(f.node) if isinstance(c, ast.Call) and (
                isinstance(c.func, ast.Name) and c.func.id == 'download_metadata' or isinstance(c.func, ast.Attribute) and c.func.attr == 'download_metadata')]
            for c in calls:
                n += 1
                ctx.ok('failsafe', f.short)
                fsv = next((k.value for k in c.keywords if k.arg == 'failsafe'), c.args[3] if len(c.args) > 3 else None)
                if fsv is None or isinstance(fsv, ast.Constant) and fsv.value is False:
                    pass
                elif not (m.name == 's3ql.fsck' and isinstance(fsv, ast.Attribute) and fsv.attr == 'is_mounted') and not (
                        m.name == 's3ql.fsck' and local_is_mounted(f.node, fsv)):
                    ctx.violate('failsafe', f.qual, '%s uses metadata without verifying it' % f.short, f.loc(c))
                dbf = c.args[1] if len(c.args) > 1 else next((k.value for k in c.keywords if k.arg == 'db_file'), None)
                if dbf is None or "'.db'" not in ast.unparse(dbf):
                    continue
                if m.name in ('s3ql.mount', 's3ql.fsck'):
                    cache_rules(ctx, f)
                else:
                    restore_rules(ctx, f)
    if not n:
        ctx.violate('failsafe', 'none', 'metadata is never downloaded')


def local_is_mounted(fn, e):
    return isinstance(e, ast.Name) and any(isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in a.targets)
                                           and isinstance(a.value, ast.Attribute) and a.value.attr == 'is_mounted' for a in ast.walk(fn))


class RestorePolicy(StdPolicy):
    norow = False
    os_raises = False
    await_raises = False

    def inline(self, fi, eng):
        return fi.qual not in known()


class RestoreMonitor(DownloadMonitor):
    def step(self, auto, ev, st, eng):
        if ev.kind == 'call' and ev.name == 'download_metadata':
            return auto + (('download',),)
        if ev.kind == 'ret' and ev.name == 'exists' and ev.args:
            return auto + (('exists', ev.args[0], ev.res),)
        if ev.kind == 'call' and ev.name in ('unlink', 'remove', 'rename', 'replace', 'rmtree') and ev.args:
            return auto + (('gone', ev.args[0]),)
        return auto

    def branch(self, auto, atom, val, st, eng):
        if mentions(atom, lambda u: u[0] == 'res' and u[1].endswith('exists')):
            return auto + (('if', atom, val),)
        return auto


def restore_rules(ctx, f):
    """A command that replaces the local database first gets rid of the cache and parameters that belong to the old one."""
    eng, outs = ctx.run(f, RestorePolicy(), RestoreMonitor())
    for o in outs:
        tr = o.st.auto
        if ('download',) not in tr:
            continue
        pre = tr[:tr.index(('download',))]
        for suf, what in (('-cache', 'cache'), ('.params', 'parameters')):
            ctx.ok('fresh', '%s %s' % (f.short, what))

            def of(t):
                return mentions(t, lambda u: is_const(u) and isinstance(cval(u), str) and cval(u) == suf or u[0] == 'fmt' and str(u[1]).endswith(suf))
            gone = any(e[0] == 'gone' and of(e[1]) for e in pre)
            absent = any(e[0] == 'if' and e[2] is False and mentions(e[1], lambda u: u[0] == 'res' and u[1].endswith('exists') and of(u)) for e in pre)
            if not gone and not absent:
                mviol(ctx, 'fresh', f, eng, o, 'the local database is replaced while the %s of the old one are still in place' % what, suf)


class OldCachePolicy(RestorePolicy):
    stable = frozenset({'needs_fsck', 'is_mounted', 'seq_no'})
    max_states = 400

    def raises(self, ev, eng):
        return ('builtins.FileNotFoundError',) if ev.kind == 'call' and ev.name in ('listdir', 'scandir') else ()


class OldCacheMonitor(Monitor):
    """(what happened to the cache directory, metadata downloaded, its parameters recorded)"""
    def step(self, auto, ev, st, eng):
        auto = auto or (None, False, False)

        if ev.kind == 'call' and ev.name == 'write_params' and auto[1]:
            return auto[:2] + (True,)

        def of(t):
            return mentions(t, lambda u: is_const(u) and isinstance(cval(u), str) and cval(u) == '-cache' or u[0] == 'fmt' and str(u[1]).endswith('-cache'))

        if ev.kind == 'call' and ev.name == 'download_metadata':
            return (auto[0], True, False)
        if ev.kind == 'call' and ev.name in ('rename', 'replace', 'rmtree') and ev.args and of(ev.args[0]):
            return ('gone', auto[1], auto[2])
        if ev.kind == 'fault' and ev.extra in ('listdir', 'scandir') and ev.args and of(ev.args[0]):
            return ('absent', auto[1], auto[2])
        if ev.kind == 'loopexit' and auto[0] is None and of(ev.res):
            return ('empty', auto[1], auto[2])
        return auto

    def branch(self, auto, atom, val, st, eng):
        auto = auto or (None, False, False)
        if not val and auto[0] is None and atom[0] == 'true' and atom[1][0] == 'res' and atom[1][1].endswith(
                ('exists', 'isdir', 'listdir', 'any')) and mentions(atom, lambda u: is_const(u) and cval(u) == '-cache' or u[0] == 'fmt' and str(
                    u[1]).endswith('-cache')):
            return ('absent', auto[1], auto[2])
        return auto


def cache_rules(ctx, f):
    """Cached blocks of an earlier session are never combined with metadata that was downloaded."""
    eng, outs = ctx.run(f, OldCachePolicy(), OldCacheMonitor())
    n = 0
    for o in outs:
        a = o.st.auto or (None, False, False)
        if not a[1] or not (a[2] or o.kind == 'return'):
            continue
        n += 1
        ctx.ok('fresh', '%s cache' % f.short)
        if a[0] is None:
            mviol(ctx, 'fresh', f, eng, o, 'the metadata is replaced by a downloaded version while blocks of the old one stay in the cache', '-cache')
    if not n:
        ctx.violate('fresh', f.qual, '%s never uses downloaded metadata' % f.short, f.loc())


# -------------------------------------------------------------------------------------------
# M08


class ExpirePolicy(UploadPolicy):
    loop_iters = 1

    def raises(self, ev, eng):
        if ev.kind == 'call' and ev.name == 'first_le_than':
            return ('builtins.ValueError',)
        return ('any', 's3ql.logging.QuietError', 's3ql.backends.common.NoSuchObject') if ev.kind == 'call' and ev.name == 'read_remote_params' else ()

    def inline(self, fi, eng):
        return fi.qual not in known()


class ExpireMonitor(ListingMonitor):
    def step(self, auto, ev, st, eng):
        if ev.kind == 'fault':
            return auto + (('fault', ev.extra),)
        if ev.kind == 'ret' and ev.name in ('get_available_seq_nos', 'read_remote_params'):
            return auto + ((ev.name, tuple(ev.args), ev.res),)
        if ev.kind == 'call' and ev.name in ('delete_multi', 'delete'):
            return auto + (('delete', tuple(ev.args)),)
        if ev.kind == 'call' and ev.name in ('update', 'discard', 'remove', 'pop', 'clear', 'setdefault'):
            return auto + (('op', ev.name, ev.recv, tuple(ev.args)),)
        return super().step(auto, ev, st, eng)


@check('M08', explanation="""Path analysis of the expiry of metadata versions: the names handed to the backend for deletion are classified by
format; a version record is deleted only if its number is from the part of the sorted version list that is cut off by the same bound as the part
that is kept, and a block copy only if it is not in the set of needed copies, which receives, for every kept version and every block inside its
recorded size, the newest copy not newer than the version.""")
def m08(ctx):
    ctx.rule('records', 'version records are deleted only for versions that are not kept')
    ctx.rule('blocks', 'a block copy is deleted only if no kept version needs it')
    ctx.rule('needed', 'for every kept version the newest copy of each block inside its size is needed')
    ctx.rule('recent', 'the most recent versions are kept')
    newest_rules(ctx, 'needed')
    listing_rules(ctx, 'needed')
    versions_rules(ctx)
    expire_rules(ctx)
    for r in ctx.rules:
        ctx.floor(r)


def versions_rules(ctx):
    fi = ctx.repo.func(DB + '.get_available_seq_nos')
    eng, outs = ctx.run(fi, UploadPolicy(), ListingMonitor())
    n = 0
    for o in outs:
        tr = o.st.auto
        lists = [e for e in tr if e[0] == 'list']
        if o.kind != 'return' or not lists:
            continue
        if not lists[0][2] or not is_const(lists[0][2][0]) or cval(lists[0][2][0]) not in ('s3ql_params_', 's3ql_params', ''):
            mviol(ctx, 'recent', fi, eng, o, 'not all version records are listed', 'list')
        for i, e in enumerate(tr):
            if e[0] != 'iter' or e[2] is None:
                continue
            end = next((k for k in range(i + 1, len(tr)) if tr[k][0] in ('iter', 'loopexit')), len(tr))
            seg = tr[i:end]
            a = [x for x in seg if x[0] == 'append']
            hit = [x for x in seg if x[0] in ('match', 'fullmatch')]
            miss = hit and any(x[0] == 'if' and mentions(x[1], lambda u: u == hit[0][3]) and (x[1][0] == 'true' and not x[2] or x[1][0] == 'isnone' and x[2])
                               for x in seg)
            ctx.ok('recent', 'record')
            if not a:
                if not miss:
                    mviol(ctx, 'recent', fi, eng, o, 'a version record is left out', 'skipped')
                continue
            n += 1
            g = [x[3] for x in seg if x[0] == 'group']
            if g and not hexint(a[0][2][0], g):
                mviol(ctx, 'recent', fi, eng, o, 'the version number is not taken from the name of the record', 'parse')
    if not n:
        ctx.violate('recent', fi.qual, 'no version records are found', fi.loc())


def expire_rules(ctx):
    fi = ctx.repo.func(DB + '.expire_objects')
    eng, outs = ctx.run(fi, ExpirePolicy(), ExpireMonitor())
    n = {'records': 0, 'blocks': 0, 'needed': 0}
    default_keep(ctx, fi)
    for o in outs:
        if o.kind != 'return':
            continue
        tr = o.st.auto
        dels = [(i, e) for i, e in enumerate(tr) if e[0] == 'delete']
        if not dels:
            continue
        if ('fault', 'read_remote_params') in tr[:dels[0][0]]:
            mviol(ctx, 'needed', fi, eng, o, 'deletes although the record of a kept version could not be read', 'unread')
        vers = next((e[2] for e in tr if e[0] == 'get_available_seq_nos'), None)
        if vers is None:
            mviol(ctx, 'recent', fi, eng, o, 'the existing versions are not determined', 'versions')
            continue
        sort_at = next((i for i, e in enumerate(tr) if e[0] == 'sort' and e[1] == vers and not e[2]), None)
        keep_src = None
        keep = None
        # the versions that are kept
        for i, e in enumerate(tr):
            if e[0] == 'read_remote_params' and len(e[1]) > 1 and e[1][1][0] == 'elem':
                keep_src = e[1][1][1]
        slices = {}
        for e in tr:
            for t in e[1:]:
                collect_slices(t, vers, slices)
        if keep_src is not None:
            ctx.ok('recent', 'kept versions')
            keep = recent_slice(keep_src, vers, sort_at is not None)
            if keep is None:
                mviol(ctx, 'recent', fi, eng, o, 'the versions that are kept are not the most recent ones', 'slice')
        # the needed copies
        need = None
        for i, e in enumerate(tr):
            if e[0] != 'iter' or e[2] is None or e[2][0] != 'elem' or e[2][1] != keep_src or keep_src is None:
                continue
            s = e[2]
            par = next((x[2] for x in tr[i:] if x[0] == 'read_remote_params'), None)
            j = i + 1
            while j < len(tr):
                x = tr[j]
                if x[0] == 'iter' and blk(x) is not None:
                    b, cand = blk(x)
                    end = next((k for k in range(j + 1, len(tr)) if tr[k][0] in ('iter', 'loopexit')), len(tr))
                    seg = tr[j:end]
                    n['needed'] += 1
                    ctx.ok('needed', 'block of a kept version')
                    add = [y for y in seg if y[0] == 'append']
                    beyond_, _ = bound_facts(seg, b)
                    whole = end < len(tr) and tr[end][1] == x[1]
                    if not whole and not (beyond_ and x[2][1][0] in ('pure', 'res') and str(x[2][1][1]).endswith('sorted')):
                        mviol(ctx, 'needed', fi, eng, o, 'the remaining blocks of a kept version are not considered', 'stops')
                    if not add and any(y == ('fault', 'first_le_than') for y in seg):
                        pass  # there is no copy that the version could need
                    elif not add:
                        if not (beyond_ and par is not None and any(mentions(y[1], lambda u: u == par) for y in seg if y[0] == 'if')):
                            mviol(ctx, 'needed', fi, eng, o, 'a block inside the size of a kept version is not marked as needed', 'skipped')
                    else:
                        sel = [y for y in seg if y[0] == 'first_le_than']
                        if not sel or sel[-1][1] != (cand, s) or add[-1][2] != (sel[-1][2],):
                            mviol(ctx, 'needed', fi, eng, o, 'the copy marked as needed is not the one of the kept version', 'copy')
                        c = add[-1][1]
                        if c[0] == 'item' and c[2] == b:
                            need = c[1]
                        else:
                            mviol(ctx, 'needed', fi, eng, o, 'the copy is not marked for its block', 'block')
                    break
                if x[0] in ('iter', 'loopexit'):
                    break
                j += 1
        if need is not None:
            for e in tr:
                if e[0] == 'op' and mentions(e[2], lambda u: u == need):
                    mviol(ctx, 'needed', fi, eng, o, 'needed copies are forgotten', 'forgotten')
        # the deletions
        lastkeep = max([i for i, e in enumerate(tr) if e[0] == 'iter' and e[2] is not None and e[2][0] == 'elem' and e[2][1] == keep_src] or [-1])
        names = []
        for i, e in enumerate(tr):
            if e[0] == 'append' and e[1] is not None and not (need is not None and mentions(e[1], lambda u: u == need)):
                for a in e[2]:
                    names += [(i, x) for x in fmts(a)]
            if e[0] == 'delete':
                for a in e[1]:
                    names += [(i, x) for x in fmts(a)]
        for i, x in names:
            if 's3ql_params' in x[1]:
                n['records'] += 1
                ctx.ok('records', 'deleted record')
                v = x[2][0] if x[2] else None
                good = v is not None and v[0] == 'elem' and (
                    keep_src is not None and complement(v[1], keep_src, vers, sort_at is not None)
                    or keep_src is None and old_slice(v[1], vers, sort_at is not None)
                    or keep_src is not None and any(y[0] == 'if' and y[1] == ('in', v, keep_src) and not y[2] for y in tr[:i + 1]))
                if not good:
                    mviol(ctx, 'records', fi, eng, o, 'the record of a version that is kept may be deleted (%s)' % show(x)[:90], 'record')
            elif 's3ql_metadata' in x[1]:
                n['blocks'] += 1
                ctx.ok('blocks', 'deleted copy')
                b, s = (tuple(x[2]) + (None, None))[:2]
                tests = [(k, y) for k, y in enumerate(tr[:i + 1]) if y[0] == 'if' and y[1][0] == 'in' and y[1][1] == s and not y[2]]
                good = [k for k, y in tests if y[1][2][0] == 'item' and y[1][2][2] == b and (need is None or y[1][2][1] == need)
                        or y[1][2][0] == 'res' and y[1][2][1].endswith('.get') and y[1][2][3][1:2] == (b,)]
                if not good:
                    mviol(ctx, 'blocks', fi, eng, o, 'a block copy is deleted although a kept version may need it', 'copy')
                elif good[-1] < lastkeep:
                    mviol(ctx, 'blocks', fi, eng, o, 'block copies are selected before all kept versions were considered', 'early')
    for k, v in n.items():
        if not v:
            ctx.violate(k, fi.qual, 'expire_objects: no instance of rule "%s" found' % ctx.rules[k], fi.loc())


def default_keep(ctx, fi):
    a = fi.node.args
    for arg, d in list(zip(a.args[len(a.args) - len(a.defaults):], a.defaults)) + [(x, y) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None]:
        if 'keep' in arg.arg:
            ctx.ok('recent', 'default')
            if not (isinstance(d, ast.Constant) and isinstance(d.value, int) and d.value >= 2):
                ctx.violate('recent', fi.qual, 'expire_objects keeps too few versions by default', fi.loc())


def collect_slices(t, vers, out):
    pass


def slice_of(t):
    if t[0] == 'pure' and t[1] == 'slice' and len(t[2]) >= 3:
        return t[2]
    if t[0] == 'slice':
        return t[1:]
    return None


def srt(base, vers, sorted_):
    return base == vers and sorted_ or base[0] in ('pure', 'res') and str(base[1]).endswith('sorted') and mentions(base, lambda u: u == vers) \
        and 'reverse' not in repr(base)


def neg(t):
    if t[0] == 'pure' and t[1] == 'USub':
        return t[2][0]
    if is_const(t) and isinstance(cval(t), int) and cval(t) < 0:
        return const(-cval(t))
    return None


def recent_slice(t, vers, sorted_):
    """t = sorted versions[-n:]: n"""
    s = slice_of(t)
    if s is None or not srt(s[0], vers, sorted_) or s[2] != NONE or (len(s) > 3 and s[3] != NONE):
        return None
    return neg(s[1])


def old_slice(t, vers, sorted_):
    """t = sorted versions[:-n]: n"""
    s = slice_of(t)
    if s is None or not srt(s[0], vers, sorted_) or s[1] not in (NONE, const(0)) or (len(s) > 3 and s[3] != NONE):
        return None
    return neg(s[2])


def complement(t, keep, vers, sorted_):
    a, b = old_slice(t, vers, sorted_), recent_slice(keep, vers, sorted_)
    return a is not None and a == b


def fmts(t):
    res = []

    def f(u):
        if u[0] == 'fmt' and isinstance(u[1], str) and 's3ql_' in u[1]:
            res.append(u)
        return False
    mentions(t, f)
    return res

'''Metadata life cycle: dirty/clean marking, local and remote parameter records, backups, expiry, schema.'''

from __future__ import annotations

import ast
import re

from sa.interp import Monitor, const, cval, is_const, mentions, show, subterms, NONE, TRUE, FALSE
from sa.lib import StdPolicy, is_attr, recv_is, recv_attr, cls_name, lin_diff, methods_of, callers_of, all_funcs_in
from sa.repo import AnalysisError
from sa.sqlp import sql_of, parse
from . import check

DB = 's3ql.database'
PARAM_FNS = {'write_params', 'upload_params', 'upload_metadata', 'expire_objects', 'download_metadata', 'read_remote_params',
             'read_cached_params', 'get_metadata', 'create_tables', 'init_tables', 'get_available_seq_nos', 'get_block_objects',
             'verify_metadata_snapshots'}


class MetaPolicy(StdPolicy):
    '''Commands: only the calls that matter for the order may fail.'''
    stable = frozenset({'needs_fsck', 'is_mounted', 'seq_no', 'found_errors', 'uncorrectable_errors'})
    norow = False
    await_raises = False
    os_raises = False
    fail = frozenset({'write_params', 'upload_params', 'upload_metadata', 'check', 'close'})
    inline_modules = frozenset()
    stop = frozenset()
    max_states = 120

    def inline(self, fi, eng):
        from sa.baseline import known_functions

        return fi.qual not in known_functions() or fi.qual in self.force_inline or fi.short in self.force_inline

    def raises(self, ev, eng):
        if ev.name in self.fail and (ev.name not in ('check', 'close') or ev.qual.endswith(('Fsck.check', 'Connection.close'))):
            return ('any',)
        return ()


class MetaMonitor(Monitor):
    def init(self):
        return ()

    def step(self, auto, ev, st, eng):
        lab = self.label(ev, st, eng)
        return auto if lab is None else auto + (lab,)

    def label(self, ev, st, eng):
        if ev.kind == 'setattr' and is_param(eng, ev.recv):
            d = lin_diff(ev.res, ('attr', ev.recv, ev.name)) if ev.res is not None else None
            if ev.extra and ev.extra[0] == 'Add' and is_const(ev.extra[1]):
                d = cval(ev.extra[1])
            return ('set', ev.recv, ev.name, ev.res, ev.extra, d)
        if ev.kind not in ('call', 'ret'):
            return None
        q = ev.qual
        if ev.kind == 'ret':
            if ev.name in ('write_params', 'upload_params', 'upload_metadata', 'expire_objects', 'download_metadata', 'get_metadata',
                           'read_remote_params', 'read_cached_params'):
                return (ev.name, tuple(ev.args), tuple(sorted(ev.kw.items())), ev.awaited, ev.res)
            if q.endswith('Fsck.check'):
                return ('fsck-done', ev.awaited)
            if q.endswith('Connection.close') and not ev.name == 'aclose':
                return ('dbclose', ev.recv)
            return None
        if ev.name in ('write_params', 'upload_params', 'upload_metadata', 'create_tables', 'init_tables', 'expire_objects'):
            return ('begin', ev.name, ev.args)
        if q.endswith('Fsck.check'):
            return ('begin', 'fsck', ev.args)
        if q in ('pyfuse3.main',):
            return ('begin', 'fuse', ())
        if ev.name == 'start_soon' and ev.args:
            return ('start', ev.args[0])
        sq = sql_of(ev, eng)
        if sq is not None:
            k = (sq.stmt.kind or '').lower()
            t = re.sub(r'\s+', ' ', sq.stmt.text.strip().lower())
            if k in ('insert', 'update', 'delete', 'replace') or re.match(r'(create|drop|alter|vacuum|reindex)', t):
                return ('dbwrite', t)
        return None


def is_param(eng, t):
    if t is None:
        return False
    c = cls_name(eng, t)
    if c == 'FsAttributes':
        return True
    if t[0] == 'attr' and t[2] in ('params', 'param'):
        return True
    if t[0] == 'item' and t[1][0] == 'res' and t[1][1].endswith('get_metadata') and cval_is(t[2], 0):
        return True
    return t[0] == 'res' and t[1].rpartition('.')[2] in ('read_remote_params', 'read_cached_params', 'FsAttributes')


def cval_is(t, v):
    return is_const(t) and cval(t) == v


def commands(ctx):
    '''Functions registered as command line commands (and the periodic backup task).'''
    for mod in ctx.repo.modules.values():
        for fi in mod.funcs.values() if hasattr(mod, 'funcs') else ():
            if is_command(fi.node):
                yield fi


def is_command(node):
    for d in getattr(node, 'decorator_list', ()):
        if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == 'command':
            return True
    return False


def session(ctx, fi, policy=None, monitor=None):
    return ctx.run(fi, (policy or MetaPolicy)(), (monitor or MetaMonitor)())


MODIFY = {'upload_metadata', 'create_tables', 'init_tables', 'fsck', 'fuse'}
# creating a file system and converting one to a new format have no earlier state of this revision to protect
UNMARKED = {'s3ql.mkfs.mkfs', 's3ql.adm.upgrade'}


def is_modify(e):
    return e[0] == 'dbwrite' or e[0] == 'start' or e[0] == 'begin' and e[1] in MODIFY


def what_modifies(e):
    return {'dbwrite': lambda: 'statement %r' % e[1][:60], 'start': lambda: 'task %s' % show(e[1]),
            'begin': lambda: e[1]}[e[0]]()


def mviol(ctx, rule, fi, eng, o, msg, what):
    ctx.violate(rule, '%s: %s' % (fi.qual, what), '%s: %s' % (fi.short, msg), fi.loc(), eng.describe_trace(o.st))


def param_arg(e):
    '''The parameter object of a write_params/upload_params/upload_metadata label.'''
    args, kw = e[1], dict(e[2])
    n = {'write_params': 1, 'upload_params': 1, 'upload_metadata': 2}[e[0]]
    nm = 'params'
    return args[n] if len(args) > n else kw.get(nm)


def increased(e):
    '''Is this an assignment that raises the version number?'''
    return e[0] == 'set' and e[2] == 'seq_no' and isinstance(e[5], int) and e[5] >= 1


def mark_state(tr, upto):
    '''(increased, marked, written, uploaded) for the first parameter object marked before position upto.'''
    inc = marked = None
    written = uploaded = False
    for e in tr[:upto]:
        if e[0] == 'set' and e[2] == 'seq_no':
            inc = e[1] if increased(e) else None
            written = uploaded = False
        elif e[0] == 'set' and e[2] == 'is_mounted':
            marked = e[1] if e[3] == TRUE else None
            written = uploaded = False
        elif e[0] == 'write_params' and inc is not None and marked == inc and param_arg(e) == inc:
            written = True
        elif e[0] == 'upload_params' and inc is not None and marked == inc and param_arg(e) == inc and e[3]:
            uploaded = uploaded or 'ok' if written else 'early'
    return inc, marked, written, uploaded


@check('M01', explanation='''Must-precede analysis on every path of every command: before the first statement that changes the metadata
database, starts a background task, runs the checker or serves requests, the version number was increased, the in-use mark set and the
parameters written locally and then in the backend; when recording fails, no such statement follows.''')
def m01(ctx):
    ctx.rule('marked-first', 'nothing is modified before the file system was recorded as in use under a higher version number')
    ctx.rule('local-first', 'the record is durable locally before it is stored in the backend')
    ctx.rule('refused', 'nothing is modified when recording fails')
    ctx.rule('all-sites', 'parameters are recorded and metadata uploaded only from analysed functions')
    visited = set()
    for fi in entries(ctx):
        eng, outs = session(ctx, fi)
        visited |= eng.stats['functions']
        for o in outs:
            tr = o.st.auto
            if fi.qual == 's3ql.mount.MetadataUploadTask.run':
                continue
            local_first(ctx, fi, eng, o, tr)
            if fi.qual in UNMARKED:
                continue
            i = next((i for i, e in enumerate(tr) if is_modify(e)), None)
            if i is None:
                if o.kind == 'raise' and any(e[0] == 'begin' and e[1] in ('write_params', 'upload_params') for e in tr):
                    ctx.ok('refused', fi.short)
                continue
            inc, marked, written, uploaded = mark_state(tr, i)
            ctx.ok('marked-first', fi.short)
            w = what_modifies(tr[i])
            if inc is None:
                mviol(ctx, 'marked-first', fi, eng, o, '%s runs before the version number was increased' % w, 'version')
            elif marked is None:
                mviol(ctx, 'marked-first', fi, eng, o, '%s runs before the file system was marked as in use' % w, 'mark')
            elif not written:
                mviol(ctx, 'marked-first', fi, eng, o, '%s runs before the mark was recorded locally' % w, 'local')
            elif not uploaded:
                mviol(ctx, 'marked-first', fi, eng, o, '%s runs before the mark was recorded in the backend' % w, 'backend')
            for j, e in enumerate(tr[:i]):
                if e[0] == 'begin' and e[1] in ('write_params', 'upload_params') and not any(x[0] == e[1] for x in tr[j:i]):
                    mviol(ctx, 'refused', fi, eng, o, '%s runs although recording the mark failed' % w, 'failed')
    sites(ctx, 'all-sites', {'write_params', 'upload_params', 'upload_metadata', 'expire_objects'}, visited)
    ctx.floor('marked-first', 3)
    ctx.floor('local-first', 4)
    ctx.floor('refused', 2)


def local_first(ctx, fi, eng, o, tr):
    '''Every upload of parameters is preceded by a local write of the same content.'''
    fresh = {}
    for e in tr:
        if e[0] == 'set':
            fresh[e[1]] = False
        elif e[0] == 'write_params':
            fresh[param_arg(e)] = True
        elif e[0] == 'begin' and e[1] == 'upload_metadata':
            # sets size and checksum
            for a in e[2]:
                fresh[a] = False
        elif e[0] == 'begin' and e[1] == 'upload_params':
            p = e[2][1] if len(e[2]) > 1 else None
            ctx.ok('local-first', fi.short)
            if not fresh.get(p):
                mviol(ctx, 'local-first', fi, eng, o, 'parameters are published in the backend without being recorded locally first',
                      'remote-first')


def entries(ctx):
    got = set()
    for q in ('s3ql.mount.mount', 's3ql.fsck.fsck', 's3ql.mkfs.mkfs', 's3ql.adm.shrink_db', 's3ql.adm.upgrade',
              's3ql.adm.restore_metadata', 's3ql.mount.MetadataUploadTask.run'):
        fi = ctx.repo.func(q)
        got.add(fi.qual)
        yield fi
    for mod in ctx.repo.modules.values():
        for fi in all_funcs_in(mod):
            if fi.qual not in got and is_command(fi.node):
                yield fi


def sites(ctx, rule, names, visited):
    '''Calls of the functions with the given names happen in functions the analysis went through.'''
    n = 0
    for mod in ctx.repo.modules.values():
        if not mod.name.startswith('s3ql'):
            continue
        for fi in all_funcs_in(mod):
            for call in (x for x in ast.walk(fi.node) if isinstance(x, ast.Call)):
                f = call.func
                nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
                if nm in names:
                    n += 1
                    ctx.ok(rule, '%s in %s' % (nm, fi.short))
                    if not any(fi.qual == v or fi.qual.startswith(v + '.') or v.startswith(fi.qual + '.') for v in visited_names(visited)):
                        ctx.violate(rule, '%s: %s' % (fi.qual, nm), '%s is called in %s, which no analysed command runs' % (nm, fi.short),
                                    fi.loc())
    if not n:
        ctx.violate(rule, 'none', 'no call of %s found' % ', '.join(sorted(names)))


def visited_names(visited):
    return {getattr(v, 'qual', v) for v in visited}


# -------------------------------------------------------------------------------------------
# M02


@check('M02', explanation='''Must-precede analysis on every path of every command: parameters that say the file system is clean are recorded
only after the database was closed, and after that a complete upload of its blocks finished; old versions are removed only after the
clean record is in the backend; creating a file system stores its parameters last.''')
def m02(ctx):
    ctx.rule('clean-last', 'the clean record is published only after the closed database was uploaded')
    ctx.rule('full-after-crash', 'after an unclean shutdown the checker uploads the whole database, not only tracked changes')
    ctx.rule('create-order', 'a new file system gets its parameters only after its complete metadata')
    ctx.rule('expire-last', 'old versions are removed only after the new version was published')
    ctx.rule('local-no-later', 'the clean record is written locally before it is stored in the backend')
    for fi in entries(ctx):
        if fi.qual == 's3ql.mount.MetadataUploadTask.run':
            continue
        eng, outs = session(ctx, fi)
        for o in outs:
            tr = o.st.auto
            clean_rules(ctx, fi, eng, o, tr)
    for r, n in (('clean-last', 3), ('create-order', 1), ('expire-last', 3), ('local-no-later', 3), ('full-after-crash', 1)):
        ctx.floor(r, n)


def clean_rules(ctx, fi, eng, o, tr):
    create = any(e[0] == 'begin' and e[1] == 'create_tables' for e in tr)
    clean = {}
    for i, e in enumerate(tr):
        if e[0] == 'set' and e[2] == 'is_mounted':
            clean[e[1]] = e[3] == FALSE
        if e[0] == 'begin' and e[1] == 'expire_objects':
            ctx.ok('expire-last', fi.short)
            ups = [j for j in range(i) if tr[j][0] == 'upload_params' and tr[j][3]]
            beg = [j for j in range(i) if tr[j][0] == 'begin' and tr[j][1] == 'upload_metadata']
            if not ups or beg and ups[-1] < beg[-1]:
                mviol(ctx, 'expire-last', fi, eng, o, 'old metadata versions are removed before the new version was published', 'expire')
        if not (e[0] == 'begin' and e[1] in ('write_params', 'upload_params')):
            continue
        p = e[2][1] if len(e[2]) > 1 else None
        pub_clean = clean.get(p, False) or (create and p not in clean)
        if not pub_clean or fi.qual == 's3ql.adm.restore_metadata':
            continue
        rule = 'create-order' if create else 'clean-last'
        ctx.ok(rule, fi.short)
        done = [j for j in range(i) if tr[j][0] == 'upload_metadata' and tr[j][3] and param_arg(tr[j]) == p]
        mods = [j for j in range(i) if is_modify(tr[j]) and tr[j][1:2] != ('upload_metadata',)]
        closes = [j for j in range(i) if tr[j][0] == 'dbclose']
        if not done:
            mviol(ctx, rule, fi, eng, o, 'a clean record is published without a complete metadata upload', 'no-upload')
            continue
        u = tr[done[-1]]
        kw = dict(u[2])
        upd = kw.get('update_params', u[1][4] if len(u[1]) > 4 else TRUE)
        if upd != TRUE:
            mviol(ctx, rule, fi, eng, o, 'a clean record is published with the size and checksum of another version', 'no-checksum')
        start = max(j for j in range(done[-1]) if tr[j][0] == 'begin' and tr[j][1] == 'upload_metadata')
        if mods and mods[-1] > start:
            mviol(ctx, rule, fi, eng, o, 'metadata changes after it was uploaded and before the clean record (%s)' % what_modifies(tr[mods[-1]]),
                  'late-change')
        db = u[1][1] if len(u[1]) > 1 else kw.get('db')
        closed = [j for j in closes if tr[j][1] == db and j < start]
        if fi.qual != 's3ql.adm.upgrade' and (not closed or mods and mods[-1] > closed[-1]):
            mviol(ctx, rule, fi, eng, o, 'metadata is uploaded for a clean record before the database was closed', 'not-closed')
        if e[1] == 'upload_params':
            ctx.ok('local-no-later', fi.short)
            w = [j for j in range(i) if tr[j][0] == 'write_params' and param_arg(tr[j]) == p]
            if not w or any(tr[j][0] == 'set' and tr[j][1] == p for j in range(w[-1], i)) or w[-1] < done[-1]:
                mviol(ctx, 'local-no-later', fi, eng, o, 'the clean record is published before it was written locally', 'local')
        if any(x[0] == 'fsck-done' for x in tr[:i]):
            inc = kw.get('incremental', u[1][3] if len(u[1]) > 3 else TRUE)
            need = [x for x in tr[:i] if x[0] == 'set' and x[1] == p and x[2] == 'needs_fsck' and x[3] == TRUE]
            ctx.ok('full-after-crash', fi.short)
            if need and inc != FALSE:
                mviol(ctx, 'full-after-crash', fi, eng, o, 'after an unclean shutdown only tracked changes are uploaded', 'incremental')


# -------------------------------------------------------------------------------------------
# M03


class FilePolicy(StdPolicy):
    '''File operations; everything may fail.'''
    inline_modules = frozenset()
    norow = False

    def raises(self, ev, eng):
        if ev.name in ('write', 'flush', 'fsync', 'fdatasync', 'rename', 'replace', 'close', 'open'):
            return ('builtins.OSError',)
        return StdPolicy.raises(self, ev, eng)


class FileMonitor(Monitor):
    def keep(self, ev, st, eng):
        if ev.kind == 'exit':
            return ('exit', ev.recv)
        if ev.kind not in ('call', 'ret'):
            return None
        n, q = ev.name, ev.qual
        if q == 'builtins.open' and ev.kind == 'ret':
            return ('open', ev.arg(0, 'file'), ev.arg(1, 'mode', const('r')), ev.res)
        if q == 'os.open' and ev.kind == 'ret':
            return ('osopen', ev.arg(0, 'path'), ev.arg(1, 'flags'), ev.res)
        if n == 'write' and ev.kind == 'ret' and ev.recv is not None:
            return ('write', ev.recv, ev.args[0] if ev.args else None)
        if n in ('flush', 'close') and ev.kind == 'ret' and ev.recv is not None:
            return (n, ev.recv)
        if q in ('os.fsync', 'os.fdatasync') and ev.kind == 'ret':
            return ('fsync', ev.args[0])
        if q == 'os.close' and ev.kind == 'call':
            return ('osclose', ev.args[0])
        if q in ('os.rename', 'os.replace', 'shutil.move') or n in ('rename', 'replace') and ev.recv is not None and len(ev.args) == 1:
            a = ev.args if ev.recv is None or q.startswith(('os.', 'shutil.')) else (ev.recv,) + tuple(ev.args)
            return ('rename', ev.kind, a[0], a[1] if len(a) > 1 else None)
        if q in ('os.unlink', 'os.remove') and ev.kind == 'call':
            return ('unlink', ev.args[0])
        if n in ('store', 'fetch') and ev.kind == 'ret':
            return (n, tuple(ev.args), tuple(sorted(ev.kw.items())), ev.awaited, ev.res)
        return None


def suffix_fmt(t, suf):
    '''Is t the string <something> + suf?'''
    return t is not None and t[0] == 'fmt' and t[1].endswith(suf)


def parent_steps(t):
    '''How many directories up does t go?'''
    if not isinstance(t, tuple):
        return 0
    up = len(t) > 1 and (t[0] == 'res' and t[1].rpartition('.')[2] in ('dirname', 'split') or t[0] == 'attr' and t[2] == 'parent')
    return max([parent_steps(x) for x in t], default=0) + bool(up)


def parent_dir(t, path):
    '''Is t the directory of a file whose name is built from path?'''
    return mentions(t, lambda u: u == path) and parent_steps(t) == 1


def serialized(t, p):
    '''Is t the serialization of parameter object p?'''
    return t is not None and mentions(t, lambda u: u[0] == 'res' and u[1].endswith('FsAttributes.serialize') and len(u) > 3 and p in u[3]) \
        or t is not None and t[0] == 'res' and t[1].endswith('serialize') and mentions(t, lambda u: u == p)


@check('M03', explanation='''Ordering analysis of every path of write_params: the serialized parameters are written completely to a temporary
file, flushed and forced to disk before the rename over the old record, and the directory is forced to disk afterwards; on failure the old
record is not touched. The two remote records hold one serialization; no other function writes the local record.''')
def m03(ctx):
    ctx.rule('replace-order', 'write -> flush -> fsync -> rename -> fsync of the directory')
    ctx.rule('target-untouched', 'the old record is only ever replaced by a rename')
    ctx.rule('remote-records', 'the current and the numbered remote record hold the same serialization')
    ctx.rule('sole-writer', 'the local record is written by write_params only')
    ctx.rule('same-name', 'the record is read from the name it is written to')
    fi = ctx.repo.func(DB + '.write_params')
    args = [a.arg for a in fi.node.args.args]
    path, p = (('param', a, fi.qual) for a in args[:2])
    eng, outs = ctx.run(fi, FilePolicy(), FileMonitor())

    def viol(rule, o, msg):
        ctx.violate(rule, '%s: %s' % (fi.qual, msg), '%s: %s' % (fi.short, msg), fi.loc(), eng.describe_trace(o.st))

    for o in outs:
        fh = tmp = None
        stage = 0
        dirs = set()
        synced = renamed = False
        buffered = True
        for e in o.st.auto:
            if e[0] == 'open' and is_const(e[2]) and any(c in cval(e[2]) for c in 'wax+'):
                if suffix_fmt(e[1], '.params') or not is_fmt_of(e[1], path):
                    viol('target-untouched', o, 'the local record is overwritten in place')
                fh, tmp, stage = e[3], e[1], 1
            elif e[0] == 'write' and e[1] == fh:
                stage = 2 if serialized(e[2], p) else 0
                if stage == 0:
                    viol('replace-order', o, 'something else than the serialized parameters is written')
                flushed = False
            elif (e[0] in ('flush', 'close') and e[1] == fh or e[0] == 'exit' and e[1] == fh) and stage >= 2:
                flushed = True
                if stage == 2:
                    stage = 3
            elif e[0] == 'fsync':
                if fh is not None and mentions(e[1], lambda u: u == fh):
                    if stage >= 3:
                        stage = 4
                elif e[1] in dirs and renamed:
                    synced = True
            elif e[0] == 'osopen':
                if parent_dir(e[1], path):
                    dirs.add(e[3])
                elif stage >= 2 and e[1] == tmp:
                    fh = e[3]
            elif e[0] == 'rename':
                if e[1] == 'call':
                    ctx.ok('replace-order', 'rename')
                    if stage < 4:
                        viol('replace-order', o, 'the record is replaced before the new one is complete and on disk')
                    if e[2] != tmp or not (e[3] is not None and suffix_fmt(e[3], '.params') and mentions(e[3], lambda u: u == path)):
                        viol('replace-order', o, 'the new record does not replace the old one')
                else:
                    renamed = True
            elif e[0] == 'unlink' and suffix_fmt(e[1], '.params'):
                viol('target-untouched', o, 'the old record is removed before the new one takes its place')
        if o.kind != 'raise':
            ctx.ok('replace-order', 'success')
            if not renamed:
                viol('replace-order', o, 'a path ends without replacing the record')
            elif not synced:
                viol('replace-order', o, 'the directory is not forced to disk after the record was replaced')
        ctx.ok('target-untouched', 'path')
    # remote
    up = ctx.repo.func(DB + '.upload_params')
    p = ('param', [a.arg for a in up.node.args.args][1], up.qual)
    eng, outs = ctx.run(up, FilePolicy(), FileMonitor())
    numbered = None
    for o in outs:
        if o.kind == 'raise':
            continue
        ctx.ok('remote-records', 'upload_params')
        st = [e for e in o.st.auto if e[0] == 'store' and e[3]]
        cur = [e for e in st if e[1] and e[1][0] == const('s3ql_params')]
        num = [e for e in st if e[1] and e[1][0][0] == 'fmt' and mentions(e[1][0], lambda u: u == ('attr', p, 'seq_no'))]

        def v2(msg):
            ctx.violate('remote-records', '%s: %s' % (up.qual, msg), '%s: %s' % (up.short, msg), up.loc(), eng.describe_trace(o.st))

        if len(cur) != 1 or len(num) != 1:
            v2('a path does not store both the current and the numbered record')
            continue
        vals = [e[1][1] if len(e[1]) > 1 else dict(e[2]).get('val') for e in (cur[0], num[0])]
        if not all(serialized(v, p) for v in vals):
            v2('a remote record does not hold the serialized parameters')
        numbered = num[0][1][0][1]
    # readers
    rd = ctx.repo.func(DB + '.read_remote_params')
    seq = ('param', [a.arg for a in rd.node.args.args][1], rd.qual)
    eng, outs = ctx.run(rd, FilePolicy(await_raises=False), FileMonitor())
    seen = set()
    for o in outs:
        for e in o.st.auto:
            if e[0] == 'fetch':
                seen.add((e[1][0][1], mentions(e[1][0], lambda u: u == seq)))
    ctx.ok('same-name', 'read_remote_params')
    if ('s3ql_params', False) not in seen or (numbered, True) not in seen:
        ctx.violate('same-name', rd.qual, 'remote parameters are not read from the names they are stored under (%s)' % sorted(map(str, seen)),
                    rd.loc())
    rc = ctx.repo.func(DB + '.read_cached_params')
    eng, outs = ctx.run(rc, FilePolicy(), FileMonitor())
    ctx.ok('same-name', 'read_cached_params')
    names = {e[1][1] if e[1][0] == 'fmt' else None for o in outs for e in o.st.auto if e[0] == 'open'}
    if names != {'{}.params'}:
        ctx.violate('same-name', rc.qual, 'local parameters are not read from the name they are written to (%s)' % names, rc.loc())
    # other writers
    for mod in ctx.repo.modules.values():
        if not mod.name.startswith('s3ql'):
            continue
        for f in all_funcs_in(mod):
            if f.qual == fi.qual:
                continue
            for call in (x for x in ast.walk(f.node) if isinstance(x, ast.Call)):
                if isinstance(call.func, ast.Name) and call.func.id == 'open' and call.args and mentions_text(f.node, call.args[0], '.params'):
                    ctx.ok('sole-writer', f.short)
                    m = call.args[1] if len(call.args) > 1 else next((k.value for k in call.keywords if k.arg == 'mode'), None)
                    if m is not None and not (isinstance(m, ast.Constant) and isinstance(m.value, str) and not set(m.value) & set('wax+')) \
                            and f.qual in known():
                        ctx.violate('sole-writer', f.qual, '%s writes the local parameter record directly' % f.short, f.loc())
    for r in ctx.rules:
        ctx.floor(r)


def known():
    from sa.baseline import known_functions

    return known_functions()


def is_fmt_of(t, path):
    return t is not None and t[0] == 'fmt' and mentions(t, lambda u: u == path) or 'dirname' in repr(t)


def mentions_text(fn, expr, text):
    '''Does expr (or the definition of a local name in it) contain a string constant with text?'''
    names = set()
    for n in ast.walk(expr):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and text in n.value:
            return True
        if isinstance(n, ast.Name):
            names.add(n.id)
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id in names for t in n.targets):
            if any(isinstance(c, ast.Constant) and isinstance(c.value, str) and text in c.value for c in ast.walk(n.value)):
                return True
    return False


# -------------------------------------------------------------------------------------------
# M04


class GateMonitor(MetaMonitor):
    '''Adds the decisions taken (branches on parameter attributes and user input) to the trace; frozen at the first change of state.'''

    def step(self, auto, ev, st, eng):
        if auto and auto[-1] == ('end',):
            return auto
        if ev.kind == 'ret' and ev.name == 'is_mounted' and not is_param(eng, ev.recv):
            return auto + (('mounted-here', ev.res, ev.args),)
        if ev.kind == 'call' and ev.name in ('open_backend', 'open_raw_backend', 'download_metadata', 'unlink', 'rename', 'rmtree'):
            return auto + (('do', ev.name, tuple(ev.args), tuple(sorted(ev.kw.items()))),)
        if ev.kind == 'call' and ev.qual.endswith('database.Connection'):
            return auto + (('open-db', tuple(ev.args), ev.res),)
        lab = self.label(ev, st, eng)
        if lab is None:
            return auto
        auto += (lab,)
        if self.ends(lab):
            auto += (('end',),)
        return auto

    def ends(self, lab):
        return lab[0] == 'set' and lab[2] in ('seq_no', 'is_mounted')

    def branch(self, auto, atom, val, st, eng):
        if auto and auto[-1] == ('end',) or not self.relevant(atom, eng):
            return auto
        lab = ('if', atom, val)
        return auto if lab in auto else auto + (lab,)

    def relevant(self, atom, eng):
        return mentions(atom, lambda u: u[0] == 'attr' and u[2] in ('is_mounted', 'needs_fsck', 'seq_no') or is_input(u)
                        or u[0] == 'res' and u[1].rpartition('.')[2] in ('read_remote_params', 'read_cached_params', 'is_mounted')
                        or u[0] == 'param' and u[1] in ('force_remote', 'batch'))


def is_input(u):
    return u[0] == 'res' and (u[1].endswith('.readline') or u[1] == 'builtins.input')


class GatePolicy(MetaPolicy):
    fail = frozenset()
    max_states = 400
    max_returns = 4000


def decided(tr, pred):
    '''Values of the decisions whose atom satisfies pred.'''
    return {e[2] for e in tr if e[0] == 'if' and pred(e[1])}


def attr_of(u, base, name):
    return u == ('true', ('attr', base, name))


def exit_code(o):
    """Exit status of a path that ends with QuietError (None for other endings)."""
    v = o.val
    if o.kind != 'raise' or not v or v[0] != 'exc' or not v[1].endswith('QuietError'):
        return None
    return cval(v[2][1]) if len(v[2]) > 1 and is_const(v[2][1]) else 1


def first(tr, name):
    return next((e for e in tr if e[0] == name), None)


def rparams(tr):
    e = first(tr, 'read_remote_params')
    return e[4] if e else None


def lparams(tr):
    e = first(tr, 'read_cached_params')
    return e[4] if e else None


def dec(tr, atom):
    v = decided(tr, lambda a: a == atom)
    return next(iter(v)) if len(v) == 1 else None


def same(a, b):
    return {('eq', a, b), ('eq', b, a)}


def flag(tr, name):
    """Decision about attribute name of the remote parameters (or of local ones known to be equal)."""
    r, l = rparams(tr), lparams(tr)
    v = dec(tr, ('true', ('attr', r, name)))
    if v is None and l is not None and True in decided(tr, lambda a: a in same(l, r)):
        v = dec(tr, ('true', ('attr', l, name)))
    return v


CHANGES = {'download_metadata', 'unlink', 'rename', 'rmtree'}


@check('M04', explanation="""Path analysis of get_metadata, the checker, the parameter readers and all commands, recording every decision about
the parameters: metadata in use, damaged, of another revision or older than another copy reaches the rest of the program on no path; each
refusal has its exit status and precedes every change; the checker replaces metadata only after confirmation.""")
def m04(ctx):
    ctx.rule('refuse', 'metadata marked in use or damaged is refused with its exit status before anything changes')
    ctx.rule('same-version', 'the local copy is used only if it is the version stored in the backend')
    ctx.rule('revision', 'parameters of another revision are never used; refusal has its exit status')
    ctx.rule('outdated', 'an outdated local record is ignored')
    ctx.rule('confirm', 'the checker discards metadata that exists elsewhere only after confirmation')
    ctx.rule('newer-local', 'the checker repairs a file system whose local and remote parameters differ')
    ctx.rule('mounted-here', 'a file system mounted on this computer is refused before the backend is opened')
    ctx.rule('sole-source', 'mounting and maintenance take parameters and database from the checked source only')
    gate_get_metadata(ctx)
    gate_fsck(ctx)
    gate_readers(ctx)
    gate_users(ctx)
    for r in ctx.rules:
        ctx.floor(r)


def gate_get_metadata(ctx):
    fi = ctx.repo.func('s3ql.mount.get_metadata')
    eng, outs = ctx.run(fi, GatePolicy(), GateMonitor())
    for o in outs:
        tr = o.st.auto
        r, l = rparams(tr), lparams(tr)
        code = exit_code(o)
        if code is not None:
            ctx.ok('refuse', 'refusal')
            m, n = flag(tr, 'is_mounted'), flag(tr, 'needs_fsck')
            differ = l is not None and (not_outdated(tr, r) and False in decided(tr, lambda a: a in same(l, r))
                                        or dec(tr, ('lt', ('attr', r, 'seq_no'), ('attr', l, 'seq_no'))))
            want = {30, 31} if n and m else {30} if n or differ and not m else {31} if m and not differ else {30, 31} if m else set()
            if code not in want:
                mviol(ctx, 'refuse', fi, eng, o, 'metadata is refused with exit status %s (mounted elsewhere: %s, needs fsck: %s, '
                      'local copy differs: %s)' % (code, m, n, differ), 'status')
            ch = [e for e in tr if e[0] == 'do' and e[1] in CHANGES or e[0] in ('set', 'dbwrite') or e[0] == 'begin']
            if ch:
                mviol(ctx, 'refuse', fi, eng, o, 'something is changed (%s) before metadata is refused' % (ch[0][1],), 'change')
        if o.kind == 'raise':
            continue
        ctx.ok('refuse', 'accepted')
        if r is None:
            mviol(ctx, 'refuse', fi, eng, o, 'metadata is accepted without reading the remote parameters', 'no-remote')
            continue
        for name, what in (('is_mounted', 'is in use'), ('needs_fsck', 'needs a check')):
            if flag(tr, name) is not False:
                mviol(ctx, 'refuse', fi, eng, o, 'metadata is accepted without checking that the file system %s' % what.replace('is', 'is not', 1)
                      if what.startswith('is') else 'metadata is accepted without checking that it needs no check', name)
        opened = [e for e in tr if e[0] == 'open-db']
        down = [e for e in tr if e[0] == 'download_metadata' and e[3]]
        ctx.ok('same-version', 'get_metadata')
        if opened:
            ok = l is not None and dec(tr, ('isnone', l)) is False and (
                True in decided(tr, lambda a: a in same(l, r))
                or not_outdated(tr, r) and dec(tr, ('lt', ('attr', r, 'seq_no'), ('attr', l, 'seq_no'))) is False)
            if not ok:
                mviol(ctx, 'same-version', fi, eng, o, 'the local database is used although it may be of another version', 'local')
        elif not down or arg_of(down[-1], 2, 'params') != r:
            mviol(ctx, 'same-version', fi, eng, o, 'the downloaded database is not the version of the remote parameters', 'download')
        val = o.val
        if not (val and val[0] == 'tuple' and len(val) == 3):
            raise AnalysisError('%s: result of get_metadata not understood' % fi.loc())
        if val[1] != r and not (val[1] == l and True in decided(tr, lambda a: a in same(l, r))):
            mviol(ctx, 'same-version', fi, eng, o, 'the returned parameters are not those of the returned database', 'params')
        src = opened[-1][2] if opened else down[-1][4] if down else None
        if val[2] != src:
            mviol(ctx, 'same-version', fi, eng, o, 'the returned database is not the checked one', 'db')


def arg_of(e, i, name):
    return e[1][i] if len(e[1]) > i else dict(e[2]).get(name)


def not_outdated(tr, r):
    e = first(tr, 'read_cached_params')
    return e is not None and arg_of(e, 1, 'min_seq') == ('attr', r, 'seq_no')


CONFIRM = const('continue, I know what I am doing')


def gate_fsck(ctx):
    fi = ctx.repo.func('s3ql.fsck.fsck')
    eng, outs = ctx.run(fi, GatePolicy(), GateMonitor())
    force = ('param', 'force_remote', fi.qual)
    batch = ('param', 'batch', fi.qual)
    for o in outs:
        tr = o.st.auto
        r, l = rparams(tr), lparams(tr)
        if r is None:
            continue
        code = exit_code(o)
        absent = l is None or dec(tr, ('isnone', l)) is True
        if absent and l is not None and True in decided(tr, lambda a: a[0] == 'is' and set(a[1:]) == {l, r}):
            continue  # infeasible: attributes of r were used, so it is not None
        going = [e for i, e in enumerate(tr) if e[0] == 'set' and tr[i + 1:] == (('end',),)]
        mounted = flag(tr, 'is_mounted') if absent else None
        down = [e for e in tr if e[0] == 'do' and e[1] == 'download_metadata']
        if code in (41, 42) or absent and mounted and (going or down):
            ctx.ok('confirm', 'decision')
            forced = dec(tr, ('true', force))
            said = {v for v in decided(tr, lambda a: a[0] == 'eq' and CONFIRM in a[1:] and mentions(a, is_input))}
            if code == 41 and not (dec(tr, ('true', batch)) is True and forced is False):
                mviol(ctx, 'confirm', fi, eng, o, 'exit status 41 without batch mode', '41')
            elif said and dec(tr, ('true', batch)) is not False:
                mviol(ctx, 'confirm', fi, eng, o, 'the user is asked in batch mode', 'batch')
            elif code == 42 and said != {False}:
                mviol(ctx, 'confirm', fi, eng, o, 'exit status 42 without asking the user', '42')
            elif code is None and forced is not True and said != {True}:
                mviol(ctx, 'confirm', fi, eng, o, 'metadata of a file system in use elsewhere is taken from the backend without confirmation',
                      'unconfirmed')
            if code in (41, 42) and any(e[0] == 'do' and e[1] in CHANGES for e in tr):
                mviol(ctx, 'confirm', fi, eng, o, 'something is changed before the user confirmed', 'early')
        for d in down:
            ctx.ok('confirm', 'download')
            if not absent:
                mviol(ctx, 'confirm', fi, eng, o, 'the local database is overwritten although it is not older than the remote one', 'overwrite')
            a = d[2][2] if len(d[2]) > 2 else dict(d[3]).get('params')
            if a != r:
                mviol(ctx, 'same-version', fi, eng, o, 'the downloaded database is not the version of the remote parameters', 'fsck-download')
        for e in tr:
            if e[0] == 'open-db':
                ctx.ok('same-version', 'fsck')
                if absent or not (not_outdated(tr, r) or dec(tr, ('lt', ('attr', l, 'seq_no'), ('attr', r, 'seq_no'))) is False
                                  or True in decided(tr, lambda a: a in same(l, r))):
                    mviol(ctx, 'same-version', fi, eng, o, 'the local database is checked although newer metadata is in the backend', 'fsck-local')
        if going:
            p = going[0][1]
            ctx.ok('same-version', 'fsck params')
            want = r if absent else l
            if p != want:
                mviol(ctx, 'same-version', fi, eng, o, 'the checker records the parameters of another version than it checks', 'fsck-params')
        if not absent and o.kind != 'raise' and not going:
            # considered clean: the local and remote parameters must agree
            ctx.ok('newer-local', 'clean')
            if True not in decided(tr, lambda a: a in same(l, r)):
                mviol(ctx, 'newer-local', fi, eng, o, 'a file system whose remote parameters differ from the local ones is considered clean',
                      'clean')


class ReaderPolicy(MetaPolicy):
    inline_modules = frozenset()

    def raises(self, ev, eng):
        if ev.name == 'fetch':
            return ('s3ql.backends.common.NoSuchObject',)
        if ev.name == 'deserialize':
            return ('s3ql.database.OutdatedData', 's3ql.logging.QuietError')
        return ()


class ReaderMonitor(Monitor):
    def init(self):
        return ()

    def step(self, auto, ev, st, eng):
        if ev.kind in ('call', 'ret') and ev.name in ('fetch', 'deserialize', 'FsAttributes'):
            return auto + ((ev.kind + ':' + ev.name, tuple(ev.args), tuple(sorted(ev.kw.items())), ev.res),)
        if ev.kind == 'fault':
            return auto + (('fault', ev.res[1] if ev.res else ev.qual),)
        return auto

    def branch(self, auto, atom, val, st, eng):
        return auto + (('if', atom, val),)


def gate_readers(ctx):
    cur = ctx.repo.modules['s3ql'].consts.get('CURRENT_FS_REV') if hasattr(ctx.repo.modules['s3ql'], 'consts') else None
    fi = ctx.repo.func(DB + '.FsAttributes.deserialize')
    eng, outs = ctx.run(fi, ReaderPolicy(), ReaderMonitor())
    names = [a.arg for a in fi.node.args.args]
    mins = ('param', names[-1], fi.qual)
    for o in outs:
        tr = o.st.auto
        code = exit_code(o)
        rev = {(rel, v) for e in tr if e[0] == 'if' for rel, v in rev_rel(e[1], e[2], eng)}
        if code is not None:
            ctx.ok('revision', 'refusal')
            want = 32 if ('lt', True) in rev else 33 if ('gt', True) in rev else None
            if code != want:
                mviol(ctx, 'revision', fi, eng, o, 'another revision is refused with exit status %s' % code, 'status')
            continue
        if o.kind == 'raise':
            if o.val[1].endswith('OutdatedData'):
                ctx.ok('outdated', 'deserialize')
                if True not in decided(tr, lambda a: older(a, mins)):
                    mviol(ctx, 'outdated', fi, eng, o, 'parameters of the required version count as outdated', 'current')
            continue
        ctx.ok('revision', 'accepted')
        if not (('eq', True) in rev or ('lt', False) in rev and ('gt', False) in rev):
            mviol(ctx, 'revision', fi, eng, o, 'parameters are accepted without comparing the revision', 'unchecked')
        ctx.ok('outdated', 'deserialize')
        if not (dec(tr, ('isnone', mins)) is True or False in decided(tr, lambda a: older(a, mins))):
            mviol(ctx, 'outdated', fi, eng, o, 'parameters older than the required version are accepted', 'older')
    # other places where parameters are built from stored data
    for mod in ctx.repo.modules.values():
        if not mod.name.startswith('s3ql'):
            continue
        for f in all_funcs_in(mod):
            if f.qual == fi.qual or not any(isinstance(n, ast.Call) and getattr(n.func, 'id', getattr(n.func, 'attr', None)) == 'FsAttributes'
                                            and any(k.arg is None for k in n.keywords) for n in ast.walk(f.node)):
                continue
            eng, outs = ctx.run(f, ReaderPolicy(), ReaderMonitor())
            for o in outs:
                for i, e in enumerate(o.st.auto):
                    if e[0] == 'call:FsAttributes' and any(v[0] == 'res' and v[1].endswith('thaw_basic_mapping') for k, v in e[2]):
                        ctx.ok('revision', f.short)
                        rev = {(rel, v) for x in o.st.auto[:i] if x[0] == 'if' for rel, v in rev_rel(x[1], x[2], eng)}
                        if not (('eq', True) in rev or ('lt', False) in rev and ('gt', False) in rev):
                            mviol(ctx, 'revision', f, eng, o, 'stored parameters are interpreted without comparing the revision', 'unchecked')
    # readers
    rr = ctx.repo.func(DB + '.read_remote_params')
    eng, outs = ctx.run(rr, ReaderPolicy(), ReaderMonitor())
    seq = ('param', 'seq_no', rr.qual)
    for o in outs:
        tr = o.st.auto
        if any(e[0] == 'fault' and 'NoSuchObject' in str(e[1]) for e in tr) and dec(tr, ('isnone', seq)) is True:
            ctx.ok('revision', 'no parameters')
            if exit_code(o) != 32:
                mviol(ctx, 'revision', rr, eng, o, 'missing parameters are not reported as an unsupported revision', 'missing')
        if o.kind != 'raise':
            ctx.ok('revision', 'remote')
            d = [e for e in tr if e[0] == 'ret:deserialize']
            if not d or o.val != d[-1][3]:
                mviol(ctx, 'revision', rr, eng, o, 'remote parameters are returned without the revision check', 'remote')
    rc = ctx.repo.func(DB + '.read_cached_params')
    mins = ('param', 'min_seq', rc.qual)
    eng, outs = ctx.run(rc, ReaderPolicy(), ReaderMonitor())
    for o in outs:
        tr = o.st.auto
        late = any(e[0] == 'fault' and 'OutdatedData' in str(e[1]) for e in tr)
        d = [e for e in tr if e[0] == 'ret:deserialize']
        if late:
            ctx.ok('outdated', 'read_cached_params')
            if o.kind == 'raise' or o.val != NONE:
                mviol(ctx, 'outdated', rc, eng, o, 'an outdated local record is not ignored', 'ignored')
        elif o.kind != 'raise' and o.val != NONE:
            ctx.ok('outdated', 'read_cached_params')
            if not d or o.val != d[-1][3] or (d[-1][1][1] if len(d[-1][1]) > 1 else dict(d[-1][2]).get('min_seq')) != mins:
                mviol(ctx, 'outdated', rc, eng, o, 'the local record is returned without the version check', 'version')


def older(a, mins):
    """Is a the comparison "stored version < required version"?"""
    return a[0] == 'lt' and a[2] == mins and a[1][0] == 'item' and a[1][2] == const('seq_no')


def rev_rel(atom, val, eng):
    """Relations between the stored and the supported revision established by a decision."""
    def stored(t):
        return t[0] == 'item' and t[2] == const('revision')

    def cur(t):
        return t == ('global', 's3ql.CURRENT_FS_REV') or is_const(t) and cval(t) == eng_rev(eng)

    if atom[0] == 'eq' and (stored(atom[1]) and cur(atom[2]) or stored(atom[2]) and cur(atom[1])):
        yield ('eq', val)
    if atom[0] == 'lt' and stored(atom[1]) and cur(atom[2]):
        yield ('lt', val)
    if atom[0] == 'lt' and stored(atom[2]) and cur(atom[1]):
        yield ('gt', val)


def eng_rev(eng):
    for n in eng.repo.modules['s3ql'].tree.body:
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(t, ast.Name) and t.id == 'CURRENT_FS_REV' and isinstance(n.value, ast.Constant):
                return n.value.value
    return None


def gate_users(ctx):
    for q in ('s3ql.mount.mount', 's3ql.fsck.fsck'):
        fi = ctx.repo.func(q)
        eng, outs = ctx.run(fi, GatePolicy(), GateMonitor())
        url = ('param', 'storage_url', fi.qual)
        for o in outs:
            tr = o.st.auto
            for i, e in enumerate(tr):
                if e[0] == 'do' and e[1].startswith('open_'):
                    ctx.ok('mounted-here', fi.short)
                    m = [x for x in tr[:i] if x[0] == 'mounted-here' and x[2] and x[2][0] == url]
                    if not m or dec(tr[:i], ('true', m[-1][1])) is not False:
                        mviol(ctx, 'mounted-here', fi, eng, o, 'the backend is opened although the file system may be mounted on this computer',
                              'mounted')
                        break
            m = first(tr, 'mounted-here')
            if m and dec(tr, ('true', m[1])) is True:
                ctx.ok('mounted-here', 'refusal')
                if exit_code(o) != 40:
                    mviol(ctx, 'mounted-here', fi, eng, o, 'a file system mounted on this computer is not refused with exit status 40', '40')
    for q in ('s3ql.mount.mount', 's3ql.adm.shrink_db'):
        fi = ctx.repo.func(q)
        eng, outs = ctx.run(fi, MetaPolicy(), SourceMonitor())
        for o in outs:
            got = [e for e in o.st.auto if e[0] == 'get_metadata' and e[3]]
            for e in o.st.auto:
                t = e[1] if e[0] in ('set', 'use-db') else None
                if t is None:
                    continue
                ctx.ok('sole-source', '%s: %s' % (fi.short, e[0]))
                i = 0 if e[0] == 'set' else 1
                if not got or t != ('item', got[0][4], const(i)):
                    mviol(ctx, 'sole-source', fi, eng, o, '%s not returned by get_metadata is used' % ('parameters' if i == 0 else 'a database'),
                          e[0])


class SourceMonitor(MetaMonitor):
    def step(self, auto, ev, st, eng):
        if ev.kind == 'call' and (ev.qual.endswith(('.Operations', '.BlockCache.create', '.InodeCache', '.MetadataUploadTask'))
                                  or ev.name == 'execute'):
            db = next((a for a in list(ev.args) + list(ev.kw.values()) if cls_name(eng, a) == 'Connection'), None)
            if ev.name == 'execute':
                db = ev.recv
            lab = ('use-db', db, ev.name)
            return auto if lab in auto else auto + (lab,)
        return super().step(auto, ev, st, eng)

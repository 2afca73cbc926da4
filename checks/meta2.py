'''M09 - M12: schema, damage records, attribute write-back, transactions.'''

from __future__ import annotations

import ast
import re

from sa import schema
from sa.fold import Unknown, fold_term
from sa.interp import FALSE, TRUE, Monitor, cval, is_const, show, subterms
from sa.lib import StdPolicy, all_funcs_in, cls_name, is_attr, last, methods_of, recv_attr
from sa.repo import AnalysisError
from sa.sqlp import sql_of

from . import check
from .fs import EvictMon, InodePolicy, MUT_SQL, inode_writeback, sql_strings, tx_kind, viol
from .meta import GateMonitor, GatePolicy, MetaPolicy, dec, entries, is_param, mviol, param_arg

# -------------------------------------------------------------------------------------------
# M09

IDS = {'objects': 'id', 'inodes': 'id', 'contents': 'rowid'}
UNIQ = {
    'objects': [{'hash'}],
    'names': [{'name'}, {'id'}],
    'contents': [{'parent_inode', 'name_id'}],
    'inode_blocks': [{'inode', 'blockno'}],
    'ext_attributes': [{'inode', 'name_id'}],
    'symlink_targets': [{'inode'}],
}
REFS = {'inode': 'inodes', 'parent_inode': 'inodes', 'name_id': 'names', 'obj_id': 'objects'}
NEED = {
    'inode_blocks': {'inode', 'obj_id'},
    'symlink_targets': {'inode'},
    'contents': {'name_id', 'inode', 'parent_inode'},
    'ext_attributes': {'inode', 'name_id'},
}


def uniques(repo, t):
    out = []
    for c, d in t.cols.items():
        if re.search(r'\b(unique|primary\s+key)\b', d, re.I):
            out.append({c})
    for c in t.constraints:
        m = re.search(r'\b(?:unique|primary\s+key)\s*\(([^)]*)\)', c, re.I)
        if m:
            out.append({x.split()[0].strip('"`').lower() for x in m.group(1).split(',')})
    for fi, n, text in schema.statements(repo):
        m = re.match(r'\s*CREATE\s+UNIQUE\s+INDEX\s+(?:IF\s+NOT\s+EXISTS\s+)?\w+\s+ON\s+(\w+)\s*\(([^)]*)\)\s*;?\s*$', text, re.I | re.S)
        if m and m.group(1).lower() == t.name:
            out.append({x.split()[0].lower() for x in m.group(2).split(',')})
    return out


def references(t):
    out = {}
    for c, d in t.cols.items():
        m = re.search(r'\breferences\s+(\w+)\s*(?:\(\s*(\w+)\s*\))?', d, re.I)
        if m:
            out[c] = (m.group(1).lower(), (m.group(2) or 'id').lower())
    for c in t.constraints:
        m = re.search(r'foreign\s+key\s*\(\s*(\w+)\s*\)\s*references\s+(\w+)\s*(?:\(\s*(\w+)\s*\))?', c, re.I)
        if m:
            out[m.group(1).lower()] = (m.group(2).lower(), (m.group(3) or 'id').lower())
    return out


@check('M09', explanation='''Analysis of the schema declared by create_tables and of every SQL statement of the program: identifier columns are
AUTOINCREMENT keys and no statement chooses, changes or resets identifiers; uniqueness of entries, names, attributes, blocks and content
hashes is declared; every referencing column is declared as a reference.''')
def m09(ctx):
    ctx.rule('autoincrement', 'identifiers of objects, inodes and directory entries are AUTOINCREMENT keys')
    ctx.rule('unique', 'duplicate entries, names, attributes, blocks and hashes are refused by the schema')
    ctx.rule('references', 'columns that hold identifiers of another table are declared as references')
    ctx.rule('ids', 'no statement chooses, changes or resets identifiers')
    tabs = schema.tables(ctx.repo)

    def bad(rule, what, msg, t=None):
        ctx.violate(rule, what, msg, t.fi.loc(t.node) if t else '')

    for name, col in IDS.items():
        t = tabs.get(name)
        ctx.ok('autoincrement', name)
        if t is None:
            bad('autoincrement', name, 'table %s is not created' % name)
            continue
        if not re.match(r'integer\s+primary\s+key\s+(asc\s+)?autoincrement\b', t.cols.get(col, ''), re.I):
            bad('autoincrement', name, '%s.%s is declared as %r: identifiers of removed rows are given out again' % (
                name, col, t.cols.get(col)), t)
    for name, want in UNIQ.items():
        t = tabs.get(name)
        if t is None:
            bad('unique', name, 'table %s is not created' % name)
            continue
        have = uniques(ctx.repo, t)
        for w in want:
            ctx.ok('unique', '%s(%s)' % (name, ', '.join(sorted(w))))
            if not any(h <= w for h in have):
                bad('unique', '%s(%s)' % (name, ','.join(sorted(w))), 'two rows of %s may have the same %s' % (name, ', '.join(sorted(w))), t)
            elif any(h < w for h in have):
                bad('unique', '%s(%s)' % (name, ','.join(sorted(w))), 'rows of %s that differ in %s are refused' % (
                    name, ', '.join(sorted(w - min(have, key=len)))), t)
    for name, t in tabs.items():
        refs = references(t)
        for c in t.cols:
            if c in REFS:
                ctx.ok('references', '%s.%s' % (name, c))
                if refs.get(c) != (REFS[c], 'id'):
                    bad('references', '%s.%s' % (name, c), '%s.%s is not declared as a reference to %s(id)' % (name, c, REFS[c]), t)
        for c in NEED.get(name, ()):
            if c not in t.cols:
                bad('references', '%s.%s' % (name, c), '%s has no column %s' % (name, c), t)
    for name in NEED:
        if name not in tabs:
            bad('references', name, 'table %s is not created' % name)
    for fn, n, s in sql_strings(ctx):
        where = fn.loc(n)
        low = s.text.lower()
        if s.kind in ('insert', 'replace') and s.table in ('objects', 'inodes', 'contents', 'names'):
            ctx.ok('ids', '%s: insert into %s' % (fn.short, s.table))
            names = getattr(s, 'colnames', [])
            col = IDS.get(s.table, 'id')
            keyed = [c for c in names if c in ('id', 'rowid', '_rowid_', 'oid')]
            copied = s.subselect and s.tables and s.table in s.tables
            if keyed and fn.mod.name != 's3ql.mkfs' and not (copied and all(
                    len(s.cols.get(c, ())) == 1 and last(str(s.cols[c][0])) == col for c in keyed)):
                ctx.violate('ids', '%s: %s' % (fn.qual, s.table), '%s chooses the identifier of a new row in %s' % (fn.short, s.table), where)
            if s.or_ is not None and not keyed:
                ctx.violate('ids', '%s: or %s' % (fn.qual, s.or_), '%s inserts into %s with conflict resolution %s: an existing row is '
                            'replaced or the insertion silently skipped' % (fn.short, s.table, s.or_), where)
        if s.kind == 'update' and s.table in ('objects', 'inodes', 'contents', 'names'):
            ctx.ok('ids', '%s: update %s' % (fn.short, s.table))
            if any(c in ('id', 'rowid', '_rowid_', 'oid') for c in s.cols):
                ctx.violate('ids', '%s: update id' % fn.qual, '%s changes identifiers of %s' % (fn.short, s.table), where)
        if s.kind in ('drop', 'alter') and s.table in tabs:
            ctx.violate('ids', '%s: %s %s' % (fn.qual, s.kind, s.table), '%s %ss table %s: its identifier counter is lost' % (
                fn.short, s.kind, s.table), where)
        if 'sqlite_sequence' in low and s.kind != 'select':
            ctx.violate('ids', '%s: sqlite_sequence' % fn.qual, '%s changes the identifier counters' % fn.short, where)
    for mod in ctx.repo.modules.values():
        for fn in all_funcs_in(mod):
            for c in ast.walk(fn.node):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'create_inode':
                    ctx.ok('ids', '%s: create_inode' % fn.short)
                    if any(k.arg == 'id' for k in c.keywords):
                        ctx.violate('ids', '%s: create_inode' % fn.qual, '%s chooses the number of a new inode' % fn.short, fn.loc(c))
    for r, k in (('autoincrement', 3), ('unique', 6), ('references', 8), ('ids', 6)):
        ctx.floor(r, k)


# -------------------------------------------------------------------------------------------
# M10


class DamageMonitor(GateMonitor):
    '''Commands, with decisions about recorded damage.'''

    def ends(self, lab):
        return False

    def relevant(self, atom, eng):
        return atom[0] == 'true' and atom[1][0] == 'attr' and atom[1][2] in ('failsafe', 'uncorrectable_errors')

    def branch(self, auto, atom, val, st, eng):
        if not self.relevant(atom, eng):
            return auto
        return auto + (('if', atom, val),)


class DamagePolicy(MetaPolicy):
    stable = frozenset({'is_mounted', 'seq_no', 'found_errors'})
    fail = frozenset()
    max_states = 400


@check('M10', explanation='''Path analysis of mount, the checker and restore: a clean record is published only after the emergency flag was found
unset at the end of the session or the need for a check was recorded; only a completed check without uncorrectable errors clears that
record; the flag itself is only ever set. Refusal of damaged metadata by the next mount is decided by path analysis of get_metadata.''')
def m10(ctx):
    ctx.rule('recorded', 'the emergency state of a session is recorded in the parameters published at its end')
    ctx.rule('flag', 'the emergency flag is never cleared while mounted')
    ctx.rule('cleared', 'the record is cleared only by a completed check that left no uncorrectable error')
    ctx.rule('uncorrectable', 'the checker never publishes a clean state after an uncorrectable error')
    ctx.rule('restored', 'a restored metadata backup needs a check before use')
    ctx.rule('lost-object', 'objects that turn out to be lost set the emergency flag')
    for r in ('refuse', 'same-version'):
        ctx.rule(r, 'metadata that needs a check is refused by mount' if r == 'refuse' else 'the refused parameters are those of the metadata')
    from .meta import gate_get_metadata

    gate_get_metadata(ctx)
    for fi in entries(ctx):
        if fi.qual == 's3ql.mount.MetadataUploadTask.run':
            continue
        eng, outs = ctx.run(fi, DamagePolicy(), DamageMonitor())
        for o in outs:
            damage_rules(ctx, fi, eng, o, o.st.auto)
    flag_rules(ctx)
    removal_rules(ctx)
    for r in ('recorded', 'flag', 'cleared', 'uncorrectable', 'restored', 'lost-object', 'refuse'):
        ctx.floor(r)


def damage_rules(ctx, fi, eng, o, tr):
    fuse = [i for i, e in enumerate(tr) if e[0] == 'begin' and e[1] == 'fuse']
    done = [i for i, e in enumerate(tr) if e[0] == 'fsck-done']
    fsck = [i for i, e in enumerate(tr) if e[0] == 'begin' and e[1] == 'fsck']
    need = {}
    for i, e in enumerate(tr):
        if e[0] == 'set' and e[2] == 'needs_fsck':
            need[e[1]] = (i, e[3])
            if e[3] != TRUE:
                ctx.ok('cleared', fi.short)
                if not done or not any(d < i for d in done):
                    mviol(ctx, 'cleared', fi, eng, o, 'the record of damage is cleared without a completed check', 'no-check')
                elif not any(x[0] == 'if' and x[1][1][2] == 'uncorrectable_errors' and x[2] is False for x in tr[done[0]:i]):
                    mviol(ctx, 'cleared', fi, eng, o, 'the record of damage is cleared although uncorrectable errors may remain', 'uncorrectable')
        if e[0] == 'begin' and e[1] in ('write_params', 'upload_params', 'upload_metadata') and fuse and i > fuse[-1]:
            ctx.ok('recorded', fi.short)
            n = 2 if e[1] == 'upload_metadata' else 1
            p = e[2][n] if len(e[2]) > n else None
            exact = [x for x in tr[fuse[-1]:i] if x[0] == 'if' and x[1][1][2] == 'failsafe']
            if need.get(p, (0, None))[1] == TRUE:
                continue
            if not exact:
                mviol(ctx, 'recorded', fi, eng, o, 'parameters are published after the session without looking at the emergency flag', 'not-checked')
            elif exact[-1][2] is not False:
                mviol(ctx, 'recorded', fi, eng, o, 'the emergency state of the session is not recorded', 'not-recorded')
        if e[0] == 'set' and e[2] == 'is_mounted' and e[3] != TRUE and fsck and fsck[-1] < i:
            ctx.ok('uncorrectable', fi.short)
            if not any(d < i for d in done) or not any(x[0] == 'if' and x[1][1][2] == 'uncorrectable_errors' and x[2] is False
                                                       for x in tr[done[0]:i]):
                mviol(ctx, 'uncorrectable', fi, eng, o, 'the file system is marked clean although uncorrectable errors may remain', 'clean')
        if e[0] == 'begin' and e[1] in ('write_params', 'upload_params') and fi.qual == 's3ql.adm.restore_metadata':
            ctx.ok('restored', fi.short)
            p = e[2][1] if len(e[2]) > 1 else None
            if need.get(p, (0, None))[1] != TRUE:
                mviol(ctx, 'restored', fi, eng, o, 'restored metadata is recorded as not needing a check', 'no-need')
            if not any(x[0] == 'set' and x[1] == p and x[2] == 'seq_no' for x in tr[:i]):
                mviol(ctx, 'restored', fi, eng, o, 'restored metadata keeps the version number of the backup', 'seq')
            else:
                x = [x for x in tr[:i] if x[0] == 'set' and x[1] == p and x[2] == 'seq_no'][-1]
                if not above_all(x[3], o):
                    mviol(ctx, 'restored', fi, eng, o, 'restored metadata may get a version number that was already used (%s)' % show(x[3])[:80],
                          'seq-low')


def above_all(t, o):
    '''max(..., newest + 1) or newest + k.'''
    cand = [t]
    for u in subterms(t):
        if u[0] == 'pure' and u[1] == 'max' or u[0] == 'res' and u[1].endswith('max'):
            cand.extend(u[2] if u[0] == 'pure' else u[3])
    for u in cand:
        if u[0] == 'pure' and u[1] == 'Add':
            k = sum(cval(x) for x in u[2] if is_const(x) and isinstance(cval(x), int))
            if k >= 1 and any(newest(x) for x in u[2]):
                return True
    return False


def newest(t):
    def listing(x):
        return any(v[0] == 'res' and v[1].endswith('get_available_seq_nos') for v in subterms(x))

    if t[0] == 'item' and is_const(t[2]) and t[1][0] == 'pure' and t[1][1] in ('sorted', 'reversed'):
        rev = t[1][1] == 'reversed' or any(u == ('kw', 'reverse', TRUE) for u in subterms(t[1])) or 'reverse' in show(t[1])
        return listing(t[1]) and cval(t[2]) == (0 if rev else -1)
    if t[0] == 'pure' and t[1] == 'max' or t[0] == 'res' and t[1].endswith('.max'):
        return listing(t)
    return False


def flag_rules(ctx):
    n = 0
    for mod in ctx.repo.modules.values():
        if mod.name.startswith('contrib'):
            continue
        for fn in all_funcs_in(mod):
            for a in ast.walk(fn.node):
                tg = a.targets if isinstance(a, ast.Assign) else [a.target] if isinstance(a, (ast.AnnAssign, ast.AugAssign)) else []
                for t in tg:
                    if isinstance(t, ast.Attribute) and t.attr in ('failsafe', 'uncorrectable_errors'):
                        if fn.cls is not None and fn.cls.name not in ('Operations', 'BlockCache', 'Fsck') and fn.name == '__init__':
                            continue
                        n += 1
                        ctx.ok('flag', fn.short)
                        good = isinstance(a.value, ast.Constant) and a.value.value is True
                        init = fn.name == '__init__' and isinstance(a.value, ast.Constant) and a.value.value is False
                        if not good and not init and not monotone(a, t):
                            ctx.violate('flag', '%s: %s' % (fn.qual, t.attr), '%s may clear %s' % (fn.short, t.attr), fn.loc(a))
    # the cache reports to the object whose flag mount looks at
    return n


def monotone(a, t):
    '''x.flag = x.flag or ..., x.flag |= ...'''
    if isinstance(a, ast.AugAssign):
        return isinstance(a.op, ast.BitOr)
    v = a.value
    return isinstance(v, ast.BoolOp) and isinstance(v.op, ast.Or) and any(
        isinstance(x, ast.Constant) and x.value is True or ast.dump(x).replace('Store()', 'Load()') == ast.dump(t).replace('Store()', 'Load()')
        for x in v.values)


class RemovalPolicy(StdPolicy):
    norow = False
    os_raises = False
    await_raises = False
    inline_modules = frozenset({'s3ql.block_cache'})

    def raises(self, ev, eng):
        if ev.name == 'delete_multi' or ev.name == 'delete':
            return ('s3ql.backends.common.NoSuchObject',)
        if ev.name == 'receive_nowait':
            return ('trio.WouldBlock',)
        return ()


class RemovalMonitor(Monitor):
    def keep(self, ev, st, eng):
        if ev.kind == 'fault' and (ev.name + ev.qual).endswith('NoSuchObject'):
            return ('fault', ev.name)
        if ev.kind == 'setattr' and ev.name == 'failsafe':
            return ('failsafe', ev.args[0] if ev.args else ev.res)
        return None


def removal_rules(ctx):
    fi = ctx.repo.func('s3ql.block_cache.BlockCache._removal_task')
    eng, outs = ctx.run(fi, RemovalPolicy(), RemovalMonitor())
    for o in outs:
        tr = o.st.auto
        for i, e in enumerate(tr):
            if e[0] != 'fault':
                continue
            ctx.ok('lost-object', fi.short)
            nxt = next((j for j in range(i + 1, len(tr)) if tr[j][0] == 'fault'), len(tr))
            if not any(x == ('failsafe', TRUE) for x in tr[i:nxt]) and not (o.kind == 'raise' and nxt == len(tr)):
                viol(ctx, 'lost-object', fi, eng, o, 'an object that should exist is gone, but the emergency flag is not set', 'delete')


# -------------------------------------------------------------------------------------------
# M11


class AttrMonitor(Monitor):
    def keep(self, ev, st, eng):
        if ev.kind == 'call' and ev.name in ('setattr', '__setattr__') and ev.target is None and len(ev.args) >= 3:
            return ('setattr', ev.args[0], ev.args[1], ev.args[2])
        if ev.kind == 'setattr':
            return ('setattr', ev.recv, ('const', ev.name, 'str'), ev.args[0] if ev.args else ev.res)
        if ev.kind == 'ret' and ev.args and ev.name in ('get_row', 'execute', 'rowid', 'query', 'get_list', 'get_val'):
            return ('sql', ev.name, ev.args, ev.res)
        if ev.kind == 'loopexit':
            return ('loopexit', ev.res)
        return None


class AttrPolicy(StdPolicy):
    norow = False
    os_raises = False
    await_raises = False
    loop_iters = 2

    def raises(self, ev, eng):
        return ()


def folded(repo, t):
    try:
        return fold_term(repo, t)
    except Unknown:
        return None


def inode_columns(ctx):
    t = schema.tables(ctx.repo).get('inodes')
    if t is None:
        raise AnalysisError('table inodes not found')
    return set(t.cols)


@check('M11', explanation='''Constant folding of the column lists and path analysis of every method of the inode cache: the selected and updated
columns are exactly those of the table, each value lands in the attribute of its column, setting any attribute marks the object as modified,
objects leave memory only after being written, and flushing visits every cached object.''')
def m11(ctx):
    ctx.rule('columns', 'attributes read and written are exactly the columns of the table')
    ctx.rule('mapping', 'every value is stored in the attribute of its own column and vice versa')
    ctx.rule('dirty', 'setting an attribute marks the object as modified')
    ctx.rule('evict', 'objects are written back before they are dropped from memory')
    ctx.rule('registered', 'every object in memory is registered for eviction and flushing')
    ctx.rule('flush', 'flushing covers every cached object')
    ctx.rule('writer', 'attributes in the database are written only through the inode cache')
    ctx.rule('written', 'a modified object is marked unmodified and dropped only after its row was written')
    ctx.rule('current', 'callers get the object that is in memory, not a copy')
    ctx.rule('told', 'the attributes reported to the kernel are those of the object')
    cols = inode_columns(ctx)
    ci = ctx.repo.cls('inode_cache.InodeCache')
    for m in methods_of(ctx.repo, 'inode_cache.InodeCache', known_only=False):
        eng, outs = ctx.run(m, AttrPolicy(), AttrMonitor())
        for o in outs:
            column_rules(ctx, m, eng, o, cols)
    dirty_rules(ctx)
    inode_writeback(ctx, 'evict')
    written_rules(ctx, ci)
    reported_attrs(ctx, cols)
    cache_rules(ctx, ci)
    for fn, n, s in sql_strings(ctx):
        if s.kind in MUT_SQL and s.table == 'inodes':
            ctx.ok('writer', fn.short)
            if fn.mod.name not in ('s3ql.inode_cache', 's3ql.fsck', 's3ql.mkfs', 's3ql.adm'):
                ctx.violate('writer', fn.qual, '%s changes rows of inodes behind the back of the inode cache' % fn.short, fn.loc(n))
    for r in ('columns', 'dirty', 'evict', 'registered', 'flush', 'writer', 'written', 'current', 'told'):
        ctx.floor(r)


def column_rules(ctx, m, eng, o, cols):
    tr = o.st.auto
    for i, e in enumerate(tr):
        if e[0] != 'sql':
            continue
        text = folded(ctx.repo, e[2][0])
        if not isinstance(text, str):
            continue
        text = ' '.join(text.split())
        q = re.match(r'SELECT (.*) FROM inodes WHERE id ?= ?\?$', text, re.I)
        if q and e[1] == 'get_row':
            sel = [last(x.strip()) for x in q.group(1).split(',')]
            ctx.ok('columns', '%s: select' % m.short)
            if set(sel) != cols and sel != ['*']:
                viol(ctx, 'columns', m, eng, o, 'columns read (%s) differ from the table (%s)' % (', '.join(sel), ', '.join(
                    sorted(cols ^ set(sel)))), 'select')
            if sel != ['*']:
                load_mapping(ctx, m, eng, o, tr[i + 1:], sel, e[3])
        q = re.match(r'UPDATE inodes SET (.*) WHERE id ?= ?\?$', text, re.I)
        if q:
            sets = [x.split('=') for x in q.group(1).split(',')]
            names = [x[0].strip() for x in sets]
            ctx.ok('columns', '%s: update' % m.short)
            if set(names) != cols - {'id'}:
                viol(ctx, 'columns', m, eng, o, 'changes of %s are not written' % ', '.join(sorted((cols - {'id'}) ^ set(names))), 'update')
            store_mapping(ctx, m, eng, o, names, e[2][1:])


def load_mapping(ctx, m, eng, o, tr, sel, row):
    seen = {}
    full = False
    for e in tr:
        if e[0] != 'setattr' or e[2] is None:
            continue
        nm, val = e[2], e[3]
        # generic: setattr(x, name_i, row[i]) for i, name in enumerate(names) / zip(names, row)
        if is_const(nm):
            k = cval(nm)
            if val is not None and val[0] == 'item' and val[1] == row and is_const(val[2]):
                seen[k] = cval(val[2])
            continue
        if nm[0] == 'item' and nm[1][0] == 'elem' and is_const(nm[2]):
            src = nm[1][1]
            it = src[2] if src[0] == 'pure' and src[1] in ('enumerate', 'zip') else None
            if it is None:
                continue
            if src[1] == 'enumerate' and cval(nm[2]) == 1 and val[0] == 'item' and val[1] == row and val[2][0] == 'item' \
                    and val[2][1] == nm[1] and cval(val[2][2]) == 0:
                names = folded(ctx.repo, it[0])
            elif src[1] == 'zip' and val[0] == 'item' and val[1] == nm[1] and is_const(val[2]) and it[cval(val[2])] == row:
                names = folded(ctx.repo, it[cval(nm[2])])
            else:
                continue
            if names is None:
                continue
            full = True
            ctx.ok('mapping', '%s: load' % m.short)
            if list(names) != list(sel):
                viol(ctx, 'mapping', m, eng, o, 'values are read as (%s) but stored as (%s)' % (', '.join(sel), ', '.join(names)), 'load')
    if seen and not full:
        ctx.ok('mapping', '%s: load' % m.short)
        for k, i in seen.items():
            if not (isinstance(i, int) and i < len(sel) and sel[i] == k):
                viol(ctx, 'mapping', m, eng, o, 'column %s is stored as attribute %s' % (sel[i] if isinstance(i, int) and i < len(sel) else i, k), k)


def store_mapping(ctx, m, eng, o, names, args):
    def flat(t):
        if t[0] == 'tuple':
            return list(t[1:])
        return None

    cand = []
    if len(args) > 1:
        cand.append(list(args))
    for a in args:
        for u in subterms(a):
            f = flat(u)
            if f and len(f) >= 2 and all(x[0] == 'attr' for x in f):
                cand.append(f)
    for f in cand:
        got = [x[2] for x in f if x[0] == 'attr']
        if len(got) < 2 or len({x[1] for x in f if x[0] == 'attr'}) != 1:
            continue
        ctx.ok('mapping', '%s: store' % m.short)
        if got[:len(names)] != names or [g for g in got[len(names):]] not in ([], ['id']):
            viol(ctx, 'mapping', m, eng, o, 'columns (%s) are written with the values of (%s)' % (', '.join(names), ', '.join(got)), 'store')


class WritePolicy(InodePolicy):
    '''Writing a row may fail.'''

    opaque = frozenset({'InodeCache.getattr'})

    def raises(self, ev, eng):
        if ev.name in ('execute', 'rowid') and ev.kind == 'call':
            return ('apsw.Error',)
        return InodePolicy.raises(self, ev, eng)


class WriteMonitor(Monitor):
    def keep(self, ev, st, eng):
        if ev.kind == 'ret':
            sq = sql_of(ev, eng)
            if sq is not None and sq.stmt.kind in MUT_SQL and sq.stmt.table == 'inodes':
                lists = [st.heap.get((u, '$orig')) or st.heap.get((u, '$init')) for a in ev.args for u in subterms(a) if u[0] == 'obj']
                return ('sql', sq.stmt.kind, tuple(x for x in lists if x), ev.args)
            if ev.name == 'join' and ev.args:
                return ('join', ev.args[0])
            if ev.name == 'pop' and recv_attr(ev, 'attrs'):
                return ('out', ev.args[0], ev.res)
        if ev.kind == 'delitem' and is_attr(ev.recv, 'attrs'):
            return ('out', ev.args[0], ('item', ev.recv, ev.args[0]))
        if ev.kind == 'setitem' and is_attr(ev.recv, 'attrs'):
            return ('in', ev.args[0], ev.args[1])
        if ev.kind == 'setitem' and is_attr(ev.recv, 'cached_rows'):
            return ('ring', ev.args[0], ev.args[1])
        if ev.kind == 'setattr' and ev.name == 'dirty':
            return ('dirty', ev.recv, ev.res)
        if ev.kind == 'fault':
            return ('fault', ev.extra)
        if ev.kind == 'iter':
            return ('iter',)
        return None

    def branch(self, auto, atom, val, st, eng):
        if atom[0] == 'true' and is_attr(atom[1], 'dirty'):
            return auto + (('if', atom, val),)
        return auto


def same(a, b):
    return show(a) == show(b)


def written_rules(ctx, ci):
    from .cache import is_assertion

    for m in methods_of(ctx.repo, 'inode_cache.InodeCache', known_only=False):
        if m.name in ('__init__', '__del__', '__delitem__', 'getattr'):
            continue
        eng, outs = ctx.run(m, WritePolicy(), WriteMonitor())
        ino = ('param', m.node.args.args[1].arg, m.qual) if len(m.node.args.args) > 1 else None
        for o in outs:
            if is_assertion(o):
                continue
            tr = o.st.auto

            def clean(x, seg):
                return any(e[0] == 'if' and e[2] is False and same(e[1][1][1], x) for e in seg)

            def row(x, seg):
                return any(e[0] == 'sql' and e[1] == 'update' and any(is_attr(u, 'id') and same(u[1], x) for a in e[3] + e[2] for u in subterms(a))
                           for e in seg)

            for i, e in enumerate(tr):
                lo = max([j for j in range(i) if tr[j][0] == 'iter'], default=0)
                hi = next((j for j in range(i, len(tr)) if tr[j][0] == 'iter'), len(tr))
                if e[0] == 'dirty' and e[2] == FALSE and e[1][0] != 'new':
                    ctx.ok('written', m.short)
                    if not row(e[1], tr[lo:i]):
                        viol(ctx, 'written', m, eng, o, 'an object is marked unmodified before its row was written', 'early')
                if e[0] == 'out':
                    ctx.ok('written', m.short)
                    if not row(e[2], tr[lo:hi]) and not clean(e[2], tr[lo:hi]):
                        viol(ctx, 'written', m, eng, o, 'an object is dropped from memory although writing its row %s' % (
                            'failed' if any(x[0] == 'fault' for x in tr[i:hi]) else 'was skipped'), 'lost')
                if e[0] == 'ring' and o.kind == 'raise' and any(x[0] == 'fault' and x[1] in ('execute', 'rowid') for x in tr[i:hi]):
                    viol(ctx, 'written', m, eng, o, 'an object whose row could not be written is not registered for flushing any more', 'forgotten')
                if e[0] == 'sql' and e[1] == 'insert':
                    insert_mapping(ctx, m, eng, o, tr[:i], e)
            if m.name == 'setattr' and o.kind == 'return':
                ctx.ok('written', m.short)
                if not row(ino, tr) and not clean(ino, tr):
                    viol(ctx, 'written', m, eng, o, 'a modified object is not written', 'not-written')
            if m.name == '__getitem__' and o.kind == 'return':
                ctx.ok('current', m.short)
                ins = [e for e in tr if e[0] == 'in' and e[1] == ino]
                good = o.val == ins[-1][2] if ins else o.val[0] in ('item', 'res') and is_attr(o.val[1] if o.val[0] == 'item' else o.val[3][0], 'attrs')
                if not good and not (ins and o.val[0] == 'item' and is_attr(o.val[1], 'attrs') and o.val[2] == ino):
                    viol(ctx, 'current', m, eng, o, 'the caller gets %s instead of the object in memory, its changes are lost' % show(o.val)[:60], 'copy')


def insert_mapping(ctx, m, eng, o, tr, e):
    '''The bindings are listed in the order of the columns.'''
    kw = ('param', '**' + m.node.args.kwarg.arg, m.qual) if m.node.args.kwarg else None
    if kw is None:
        return

    def order(t, pick):
        '''The sequence of names behind a sequence: constants, or the iterable they come from.'''
        if t[0] == 'tuple':
            names = [pick(x) for x in t[1:]]
            return names if len(names) >= 2 and None not in names else None
        its = {u[1] for u in subterms(t) if u[0] == 'elem' and u[1][0] in ('param', 'global', 'pure', 'res')}
        return ('order of', its.pop()) if len(its) == 1 else None

    binds = order(e[3][-1], lambda x: x[2] if x[0] == 'item' and x[1] == kw else None)
    cols = [order(x[1], lambda x: x if is_const(x) else None) for x in tr if x[0] == 'join' and not any(
        u[0] == 'const' and u[1] == '?' for u in subterms(x[1]))]
    cols = [c for c in cols if c]
    if binds is None or not cols:
        return
    ctx.ok('mapping', '%s: insert' % m.short)
    if binds not in cols:
        viol(ctx, 'mapping', m, eng, o, 'a new row is inserted with its values in another order than its columns', 'insert')


# what the kernel is told: attribute of the answer -> column
TOLD = {'st_nlink': 'refcount', 'st_ino': 'id', 'st_mode': 'mode', 'st_uid': 'uid', 'st_gid': 'gid', 'st_size': 'size', 'st_rdev': 'rdev',
        'st_atime_ns': 'atime_ns', 'st_mtime_ns': 'mtime_ns', 'st_ctime_ns': 'ctime_ns'}


def reported_attrs(ctx, cols):
    m = ctx.repo.func('s3ql.inode_cache._Inode.entry_attributes')
    eng, outs = ctx.run(m, AttrPolicy(), AttrMonitor())
    for o in outs:
        if o.kind != 'return':
            continue
        got = {}
        for e in o.st.auto:
            if e[0] == 'setattr' and e[1] == o.val and is_const(e[2]):
                got[cval(e[2])] = e[3]
        for k, col in TOLD.items():
            ctx.ok('told', k)
            v = got.get(k)
            if v is None or not (v[0] == 'attr' and v[1][0] == 'self' and v[2] == col or any(
                    u[0] == 'attr' and u[1][0] == 'self' and u[2] == col for u in subterms(v)) and v[0] != 'pure'):
                viol(ctx, 'told', m, eng, o, '%s is reported as %s' % (k, show(v)[:40] if v else 'nothing'), k)


class DirtyMonitor(AttrMonitor):
    pass


def dirty_rules(ctx):
    ci = ctx.repo.cls('inode_cache._Inode')
    m = ci.methods.get('__setattr__')
    if m is None:
        ctx.violate('dirty', 'missing', 'setting an attribute of an inode does not mark it as modified', ci.mod.rel if hasattr(ci, 'mod') else '')
        return
    eng, outs = ctx.run(m, AttrPolicy(), DirtyMonitor())
    pn = [a.arg for a in m.node.args.args]
    name = ('param', pn[1], m.qual)
    val = ('param', pn[2], m.qual)
    for o in outs:
        if o.kind == 'raise':
            continue
        tr = o.st.auto
        isdirty = o.st.truth(('eq', name, ('const', 'dirty', 'str')))
        if isdirty is None:
            isdirty = o.st.truth(('eq', ('const', 'dirty', 'str'), name))
        ctx.ok('dirty', m.short)
        if not any(e[0] == 'setattr' and e[2] == name and e[3] == val for e in tr):
            viol(ctx, 'dirty', m, eng, o, 'setting an attribute has no effect', 'lost')
        if isdirty is True:
            continue
        marks = [e for e in tr if e[0] == 'setattr' and e[2] == ('const', 'dirty', 'str')]
        if not marks or marks[-1][3] != TRUE:
            if same_value(o, tr, name, val):
                continue
            viol(ctx, 'dirty', m, eng, o, 'setting an attribute does not mark the inode as modified', 'unmarked')
    # nothing else bypasses it
    for mod in ctx.repo.modules.values():
        for fn in all_funcs_in(mod):
            if fn.qual == m.qual:
                continue
            for c in ast.walk(fn.node):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == '__setattr__' and isinstance(
                        c.func.value, ast.Name) and c.func.value.id == 'object' and fn.mod.name in ('s3ql.inode_cache', 's3ql.fs'):
                    if fn.cls is not None and fn.cls.name == '_Inode' and fn.name == '__init__':
                        continue
                    nm = c.args[1] if len(c.args) > 1 else None
                    if not (isinstance(nm, ast.Constant) and nm.value in ('dirty', 'generation') + (
                            ('uid', 'gid') if fn.mod.name == 's3ql.fs' else ())):  # owner of the control file: never stored
                        ctx.violate('dirty', fn.qual, '%s sets an attribute without marking the inode as modified' % fn.short, fn.loc(c))


def same_value(o, tr, name, val):
    '''Unchanged attributes need no mark: a decision that the old value equals the new one.'''
    for a, v in o.st.facts.items():
        if a[0] == 'eq' and v is True and val in a[1:] and any(u[0] in ('res', 'pure') and 'getattr' in str(u[1]) for u in a[1:]):
            return True
    return False


class RingMonitor(EvictMon):
    def keep(self, ev, st, eng):
        if ev.kind == 'iter':
            return ('iter', ev.res, ev.target if isinstance(ev.target, tuple) else None, ev.recv)
        if ev.kind == 'loopexit':
            return ('loopexit', ev.res)
        if ev.kind == 'handler':
            return ('handler', ev.name)
        if ev.kind == 'getitem' and is_attr(ev.recv, 'cached_rows'):
            return ('read', ev.args[0])
        return EvictMon.keep(self, ev, st, eng)

    def branch(self, auto, atom, val, st, eng):
        if atom[0] in ('isnone', 'in', 'true', 'is'):
            return auto + (('if', atom, val),)
        return auto


def cache_rules(ctx, ci):
    from .cache import is_assertion

    for m in methods_of(ctx.repo, 'inode_cache.InodeCache', known_only=False):
        if m.name in ('__init__', '__del__'):
            continue
        eng, outs = ctx.run(m, InodePolicy(), RingMonitor())
        for o in outs:
            if is_assertion(o):
                continue
            tr = o.st.auto
            for i, e in enumerate(tr):
                if e[0] == 'in' and o.kind == 'return':
                    ctx.ok('registered', m.short)
                    ring = [x for x in tr if x[0] == 'ring' and x[2] == e[1]]
                    if not ring:
                        viol(ctx, 'registered', m, eng, o, 'an object is kept in memory without being registered for flushing', 'ring')
                if e[0] == 'ring' and e[2] != ('const', None, 'NoneType') and o.kind == 'return':
                    slot = e[1]
                    lo = max([j for j in range(i) if tr[j][0] == 'iter'], default=0)
                    hi = next((j for j in range(i, len(tr)) if tr[j][0] == 'iter'), len(tr))
                    old = [x for x in tr if x[0] == 'out' and x[2] is not None and x[2][0] == 'item' and x[2][2] == slot]
                    gone = any(x[0] == 'handler' and x[1] and x[1].endswith(('KeyError', 'LookupError', 'Exception')) for x in tr[lo:hi])
                    before = any(x[0] == 'read' and x[1] == slot for x in tr[lo:i]) or o.st.truth(('in', e[2], ('attr', ('self', ci.qual), 'attrs')))
                    empty = any(x[0] == 'if' and x[2] is True and x[1][0] == 'isnone' and x[1][1][0] == 'item' and x[1][1][2] == slot for x in tr)
                    absent = any(x[0] == 'if' and x[2] is False and x[1][0] == 'in' and x[1][1][0] == 'item' and x[1][1][2] == slot for x in tr)
                    ctx.ok('registered', '%s: slot' % m.short)
                    popped = any(x[0] == 'out' and x[1] is not None and x[1][0] == 'res' for x in tr)
                    if not before and not popped:
                        viol(ctx, 'registered', m, eng, o, 'an object is registered in a place without looking which object was registered there', 'unread')
                    elif not (old or gone or empty or absent or popped):
                        viol(ctx, 'registered', m, eng, o, 'the registration of an object still in memory is overwritten', 'overwrite')
            if m.name in ('flush', 'destroy', 'drop') and o.kind == 'return':
                flush_loops(ctx, m, eng, o, tr)


def complete_iter(t):
    '''Every cached object is visited.'''
    s = show(t)
    return 'cached_rows' in s and '[' not in s.replace('self.cached_rows', '') or 'attrs' in s or t[0] == 'pure' and t[1] == 'range' \
        and len(t[2]) == 1 and is_const(t[2][0])


def flush_loops(ctx, m, eng, o, tr):
    loops = [e for e in tr if e[0] == 'loopexit']
    its = [i for i, e in enumerate(tr) if e[0] == 'iter']
    if m.name == 'drop' and not loops and not its:
        return
    ctx.ok('flush', m.short)
    full = [e for e in loops if e[1] is not None and ('cached_rows' in show(e[1]) or 'attrs' in show(e[1]) or 'range' in show(e[1]))]
    if not full:
        viol(ctx, 'flush', m, eng, o, 'not every cached object is flushed', 'incomplete')
        return
    for e in full:
        for u in subterms(e[1]):
            if u[0] == 'pure' and u[1] in ('range',) and len(u[2]) == 2 and not (is_const(u[2][0]) and cval(u[2][0]) == 0):
                viol(ctx, 'flush', m, eng, o, 'flushing starts at %s' % show(u[2][0]), 'start')
            if u[0] == 'pure' and u[1] == 'range':
                end = u[2][-1] if len(u[2]) < 3 else u[2][1]
                if end[0] == 'pure' and end[1] in ('Add', 'Sub') or end[0] == 'attr':
                    viol(ctx, 'flush', m, eng, o, 'flushing stops at %s' % show(end), 'end')
            if u[0] == 'pure' and 'slice' in u[1].lower() or u[0] == 'item' and u[2][0] == 'pure' and 'slice' in u[2][1].lower():
                viol(ctx, 'flush', m, eng, o, 'only a part of the cached objects is flushed', 'slice')
    for n, i in enumerate(its):
        end = its[n + 1] if n + 1 < len(its) else next((j for j in range(i, len(tr)) if tr[j][0] == 'loopexit'), len(tr))
        seg = tr[i:end]
        if any(x[0] == 'write' for x in seg):
            continue
        none = any(x[0] == 'if' and x[1][0] in ('isnone', 'is') and x[2] is True for x in seg)
        gone = any(x[0] == 'handler' and x[1] and x[1].endswith(('KeyError', 'LookupError')) for x in seg)
        absent = any(x[0] == 'if' and x[1][0] == 'in' and x[2] is False for x in seg)
        clean = any(x[0] == 'if' and x[1][0] == 'true' and is_attr(x[1][1], 'dirty') and x[2] is False for x in seg)
        if not (none or gone or absent or clean):
            viol(ctx, 'flush', m, eng, o, 'a cached object is skipped when flushing', 'skip')


# -------------------------------------------------------------------------------------------
# M12

CATCHES = ('Exception', 'BaseException')


def may_catch_db(h):
    if h is None:
        return True
    names = [x for x in ast.walk(h) if isinstance(x, (ast.Attribute, ast.Name))]
    for x in names:
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'apsw':
            return True
        if isinstance(x, ast.Name) and x.id in CATCHES:
            return True
    return False


DB_CALLS = {'execute', 'rowid', 'executemany'}


def always_raises(body):
    for st in body:
        if isinstance(st, ast.Raise):
            return True
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and ast.unparse(st.value.func) in ('sys.exit', 'os._exit', 'os.abort'):
            return True
        if isinstance(st, ast.If) and st.orelse and always_raises(st.body) and always_raises(st.orelse):
            return True
        if isinstance(st, (ast.With, ast.AsyncWith)) and always_raises(st.body):
            return True
        if isinstance(st, ast.Try) and always_raises(st.finalbody):
            return True
        if isinstance(st, ast.Try) and always_raises(st.body) and all(always_raises(h.body) for h in st.handlers):
            return True
    return False


@check('M12', explanation='''Typestate of the explicit transaction (begun, committed; lock held) on every path of the batch manager including
failures of each statement, absence of transaction statements elsewhere, and effect analysis of every exception handler around database
writes: none of them continues after the database refused a request.''')
def m12(ctx):
    from .fs import BatchMonitor, BatchPolicy, batch_rules

    ctx.rule('overlap', 'explicit transactions never overlap or nest')
    ctx.rule('tx-owner', 'transactions are only controlled by the batch manager')
    ctx.rule('commit', 'a transaction is finished on every way out and its lock released exactly once')
    ctx.rule('reported', 'every refused statement raises an error in the database layer')
    ctx.rule('swallow', 'no handler hides the failure of a database write')
    ctx.rule('between', 'no task switch happens inside a transaction except where the batch manager is told')
    cm = ctx.repo.cls('database.BatchedTransactionManager')
    for m in cm.methods.values():
        if m.name == '__init__':
            continue
        eng, outs = ctx.run(m, BatchPolicy(), BatchMonitor())
        batch_rules(ctx, m, eng, outs)
    begins(ctx, cm)
    reported(ctx)
    swallow(ctx)
    for r in ('overlap', 'commit', 'reported', 'tx-owner'):
        ctx.floor(r)


def begins(ctx, cm):
    for mod in ctx.repo.modules.values():
        if not mod.name.startswith('s3ql'):
            continue
        for fn in all_funcs_in(mod):
            for n in ast.walk(fn.node):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and tx_kind(n.value) and len(n.value) < 40 and is_call_arg(fn.node, n):
                    ctx.ok('tx-owner', fn.short)
                    if fn.cls is None or fn.cls.name != cm.name:
                        if fn.qual.endswith('Connection.inhibit_writes'):
                            continue  # read transaction on its own connection, ended on every path (M05)
                        ctx.violate('tx-owner', fn.qual, '%s controls a transaction (%s) outside the batch manager' % (fn.short, n.value), fn.loc(n))


def is_call_arg(fn, c):
    return any(isinstance(x, ast.Call) and c in x.args for x in ast.walk(fn))


class ConnPolicy(StdPolicy):
    inline_modules = frozenset({'s3ql.database'})
    os_raises = False
    await_raises = False
    norow = False

    def raises(self, ev, eng):
        if ev.name in ('execute', 'executemany', 'last_insert_rowid', 'changes'):
            return ('apsw.Error',) if ev.target is None else ()
        return ()


class FaultMonitor(Monitor):
    def keep(self, ev, st, eng):
        if ev.kind == 'fault':
            return ('fault', ev.name, ev.extra)
        if ev.kind == 'call' and ev.name == 'execute' and ev.target is None:
            return ('execute', ev.args)
        return None


def reported(ctx):
    conn = ctx.repo.cls('database.Connection')
    for nm in ('execute', 'rowid', 'get_row', 'get_val', 'has_val', 'get_list', 'query'):
        m = conn.methods.get(nm)
        if m is None:
            continue
        eng, outs = ctx.run(m, ConnPolicy(), FaultMonitor())
        va = ('param', m.node.args.vararg.arg, m.qual) if m.node.args.vararg else None
        for o in outs:
            ctx.ok('reported', m.short)
            if any(e[0] == 'fault' for e in o.st.auto) and o.kind != 'raise':
                viol(ctx, 'reported', m, eng, o, 'a statement the database refused is reported as successful', 'hidden')
            if o.kind == 'return' and not any(e[0] == 'execute' for e in o.st.auto):
                viol(ctx, 'reported', m, eng, o, 'returns without executing the statement', 'skipped')


def swallow(ctx):
    # functions that change the database, directly or through what they call (matched by name)
    direct = set()
    calls = {}
    for mod in ctx.repo.modules.values():
        if not mod.name.startswith('s3ql'):
            continue
        for fn in all_funcs_in(mod):
            names = set()
            for n in ast.walk(fn.node):
                if isinstance(n, ast.Call):
                    f = n.func
                    if isinstance(f, ast.Attribute):
                        names.add(f.attr)
                        if f.attr in DB_CALLS and mentions_db(f.value):
                            direct.add(fn)
                    elif isinstance(f, ast.Name):
                        names.add(f.id)
            calls[fn] = names
    wr = {f.name for f in direct}
    changed = True
    while changed:
        changed = False
        for fn, names in calls.items():
            if fn.name not in wr and names & wr - {'execute', 'get', 'write', 'run', 'close', 'wait', 'read', '__init__'} and not fn.name.startswith('__'):
                wr.add(fn.name)
                changed = True
    wr -= {'get', 'write', 'run', 'close', 'wait', 'read', 'execute', 'release', 'acquire', 'flush', 'start', 'stop', 'send', 'open', 'aclose'}
    for fn in calls:
        for t in ast.walk(fn.node):
            if isinstance(t, ast.Try):
                for h in t.handlers:
                    if not may_catch_db(h.type):
                        continue
                    w = writes_in(t.body, wr)
                    ctx.ok('swallow', fn.short)
                    if w is not None and not always_raises(h.body) and not checkpoint_only(t, h, wr):
                        ctx.violate('swallow', '%s: %s' % (fn.qual, ast.unparse(h.type) if h.type else 'except'),
                                    '%s: the handler continues after a refused database write (%s)' % (fn.short, w), fn.loc(h))
            elif isinstance(t, (ast.With, ast.AsyncWith)):
                for it in t.items:
                    c = it.context_expr
                    if isinstance(c, ast.Call) and ast.unparse(c.func).endswith('suppress') and any(may_catch_db(a) for a in c.args):
                        w = writes_in(t.body, wr)
                        ctx.ok('swallow', fn.short)
                        if w is not None:
                            ctx.violate('swallow', '%s: suppress' % fn.qual, '%s: a refused database write is ignored (%s)' % (fn.short, w), fn.loc(t))


def mentions_db(n):
    return any(isinstance(x, ast.Name) and x.id in ('db', 'conn', 'cur', 'cursor', 'second_cur') or isinstance(x, ast.Attribute) and x.attr in (
        'db', 'conn', 'cursor') for x in ast.walk(n))


def all_writes(body, wr):
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute) and f.attr in DB_CALLS and mentions_db(f.value):
                    yield n, ast.unparse(n)[:60]
                    continue
                nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
                if nm in wr:
                    yield n, nm


def writes_in(body, wr):
    return next((t for _, t in all_writes(body, wr)), None)


def checkpoint_only(t, h, wr):
    '''A checkpoint that cannot run now is repeated later and loses nothing.'''
    return all('wal_checkpoint' in ast.unparse(n) for n, _ in all_writes(t.body, wr)) and h.type is not None and ast.unparse(h.type) in ('apsw.LockedError', 'apsw.BusyError')

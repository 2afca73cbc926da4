'''K01 - K04: the file system checker.'''

from __future__ import annotations

import re
import stat

from sa import schema
from sa.baseline import known_functions
from sa.interp import FALSE, NONE, TRUE, Monitor, cval, is_const, show, subterms
from sa.lib import StdPolicy, is_attr, last, lin_diff, methods_of
from sa.sqlcond import Undecided, evaluate, where_tokens
from sa.sqlp import parse, sql_of

from . import check
from .meta import MetaMonitor, MetaPolicy, exit_code, mviol
from .meta2 import references

CLS = 's3ql.fsck.Fsck'
HELPERS = ('_add_name', '_del_name', 'create_inode', 'resolve_free')
MOD = ('insert', 'update', 'delete', 'replace')
BACKEND_ROW = 's3ql_data_'


def norm(text):
    '''Statement text without the operand prefixes for old versions of the library.'''
    return re.sub(r'\{[^}]*\}(?=\w)', '', text)


class FsckPolicy(StdPolicy):
    os_raises = False
    await_raises = False
    loop_iters = 1
    while_iters = 2
    max_states = 4000
    inline_modules = frozenset({'s3ql.fsck'})
    opaque = frozenset({'s3ql.fsck.to_str', CLS + '.log_error'} | {'%s.%s' % (CLS, h) for h in HELPERS})

    def raises(self, ev, eng):
        if ev.name == 'get_path' and self.norow:
            return ('s3ql.database.NoSuchRowError',)
        if ev.name == 'delete' and is_backend(ev):
            return ('s3ql.backends.common.NoSuchObject',)
        return super().raises(ev, eng)


def is_backend(ev):
    r = ev.recv
    return isinstance(r, tuple) and (r[0] == 'attr' and 'backend' in r[2] or r[0] == 'param' and 'backend' in r[1])


class FsckMonitor(Monitor):
    '''Trace of the effects of a method of the checker.'''

    want = None

    def init(self):
        return ()

    def step(self, auto, ev, st, eng):
        lab = self.label(ev, st, eng)
        if lab is None or self.want is not None and lab[0] not in self.want:
            return auto
        if self.want is not None and lab[0] in ('flag', 'log') and lab in auto:
            return auto
        return auto + (lab,)

    def branch(self, auto, atom, val, st, eng):
        if atom[0] == 'in' and is_attr(atom[2], 'unlinked_objects') and val is True:
            lab = ('is-unlinked', atom[1])
            return auto if lab in auto else auto + (lab,)
        return auto

    def label(self, ev, st, eng):
        k = ev.kind
        if k == 'ret':
            sq = sql_of(ev, eng)
            if sq is not None and sq.stmt.kind:
                text = norm(sq.stmt.text)
                s = parse(text)
                known = ()
                if s.kind in MOD or s.kind == 'select':
                    known = tuple((a, v) for a, v in st.facts.items() if relevant(a))
                return ('sql', s, tuple(sq.params or ()), ev.res, known)
            if ev.qual in ('os.unlink', 'os.remove', 'os.rename', 'os.replace', 'shutil.rmtree', 'shutil.move') or ev.name == 'unlink':
                t = ev.args[0] if ev.args else ev.recv
                return ('file', ev.name, t, tuple((a, v) for a, v in st.facts.items() if relevant(a)))
            if is_backend(ev) and ev.name in ('delete', 'write_fh', 'store', 'contains', 'delete_multi', 'get_size'):
                return ('backend', ev.name, tuple(ev.args), dict_t(ev.kw), ev.awaited, ev.res,
                        tuple((a, v) for a, v in st.facts.items() if relevant(a)))
            if last(ev.qual) in HELPERS or ev.name in HELPERS:
                return ('help', ev.name, tuple(ev.args), dict_t(ev.kw), ev.res)
            return None
        if k == 'call':
            if ev.name in ('log_error',) or ev.qual.endswith('log.error') and False:
                return ('log', 'error')
            if ev.name in ('add', 'append', 'extend', 'update') and ev.args:
                if is_attr(ev.recv, 'unlinked_objects'):
                    return ('unlinked', ev.args[0])
                if ev.recv is not None and ev.recv[0] == 'obj' and ev.name in ('append', 'add'):
                    return ('append', ev.recv, ev.args[0])
            return None
        if k == 'setattr' and ev.name in ('found_errors', 'uncorrectable_errors'):
            return ('flag', ev.name, ev.res)
        if k == 'iter':
            return ('iter', ev.recv)
        return None


def relevant(a):
    return a[0] in ('in', 'isnone') or a[0] in ('eq', 'lt', 'is') or a[0] == 'true' and any(
        u[0] == 'res' and (u[1].rpartition('.')[2] in ('match', 'search', 'fullmatch', 'contains', 'has_val', 'has_row'))
        for u in subterms(a[1]))


def dict_t(kw):
    return tuple(sorted(kw.items()))


def row_of(t):
    '''(query statement, column number or None) for a term taken from the row of a query.'''
    while isinstance(t, tuple) and t[0] == 'res' and t[1].rpartition('.')[2] in ('int', 'cast') or t[0] == 'pure' and t[1] in ('int', 'str', 'cast'):
        t = (t[3] if t[0] == 'res' else t[2])[-1]
    k = None
    if t[0] == 'item' and is_const(t[2]) and isinstance(t[2][1], int):
        k = t[2][1]
        t = t[1]
    if t[0] == 'elem':
        t = t[1]
    elif k is None and t[0] != 'res':
        return None
    while t[0] == 'res' and t[1].rpartition('.')[2] in ('list', 'tuple', 'sorted') or t[0] == 'pure' and t[1] in ('list', 'tuple', 'sorted'):
        t = (t[3] if t[0] == 'res' else t[2])[-1]
    if t[0] == 'res':
        for a in t[3]:
            if is_const(a) and isinstance(a[1], str) and re.match(r'\s*select\b', a[1], re.I):
                return parse(norm(a[1])), k if k is not None else 0
            if isinstance(a, tuple) and a[0] == 'fmt' and isinstance(a[1], str) and re.match(r'\s*select\b', a[1], re.I):
                return parse(norm(a[1])), k if k is not None else 0
    return None


def col_name(s, k, tr=()):
    '''Name ("table.column" where given) of the k-th column of a query; columns of working tables are resolved through their CREATE.'''
    if s is None or k is None:
        return None
    sel = s.select
    src = temp_select(tr, s.table)
    if len(sel) == 1 and sel[0] == ['*'] or len(sel) == 1 and sel[0] == '*':
        if src is not None:
            sel = src
    if k >= len(sel):
        return None
    c = sel[k]
    c = [x for x in c] if isinstance(c, list) else [c]
    if 'as' in c:
        c = c[:c.index('as')]
    return c[0].lower() if len(c) == 1 and isinstance(c[0], str) else ' '.join(str(x) for x in c)


def temp_body(tr, table):
    for e in tr:
        if e[0] == 'sql' and e[1].kind == 'create' and e[1].table == table:
            m = re.search(r'\bAS\s+(SELECT\b.*)$', e[1].text, re.I | re.S)
            if m:
                return m.group(1)
    return None


def temp_select(tr, table):
    b = temp_body(tr, table)
    return parse(b).select if b else None


def effective(s, tr):
    '''Text of the query, or of the CREATE ... AS of the working table it reads.'''
    return temp_body(tr, s.table) or s.text


def self_calls(ctx):
    '''Methods Fsck.check calls, per path, in order.'''
    fi = ctx.repo.func(CLS + '.check')

    class P(FsckPolicy):
        def inline(self, f, eng):
            return not f.name.startswith('check_') and super().inline(f, eng)

    class M(Monitor):
        def init(self):
            return ()

        def step(self, auto, ev, st, eng):
            if ev.kind == 'call' and ev.recv is not None and ev.recv[0] == 'self' and ev.target is not None and \
                    ev.target.qual.startswith(CLS + '.') and ev.name.startswith('check_'):
                return auto + ((ev.name, tuple(ev.args), tuple((a, v) for a, v in st.facts.items() if a[0] in ('true', 'eq', 'isnone')),
                                ev.awaited),)
            return auto

    P.loop_iters = 8
    eng, outs = ctx.run(fi, P(), M())
    return fi, eng, [o for o in outs if o.kind == 'return']


def order(ctx):
    '''(name -> position) of the checks on the longest path.'''
    fi, eng, outs = self_calls(ctx)
    best = max(outs, key=lambda o: len(o.st.auto))
    seen = []
    for e in best.st.auto:
        if e[0] not in seen:
            seen.append(e[0])
    return seen


CHECKED = {}


def run_methods(ctx, want=None, policy=None):
    '''(FuncInfo, engine, outcomes) of every method Fsck.check runs.'''
    for n in order(ctx):
        fi = ctx.repo.cls(CLS).methods.get(n)
        if fi is None:
            continue
        mon = FsckMonitor()
        mon.want = want
        eng, outs = ctx.run(fi, (policy or FsckPolicy)(), mon)
        yield fi, eng, outs


def real(ctx):
    return set(schema.tables(ctx.repo))


def kviol(ctx, rule, fi, eng, o, msg, what):
    ctx.violate(rule, '%s: %s' % (fi.qual, what), '%s: %s' % (fi.short, msg), fi.loc(), eng.describe_trace(o.st) if o is not None else ())


# -------------------------------------------------------------------------------------------
# K01


def known_true(known, pred):
    return any(v is True and pred(a) for a, v in known)


def hash_match(known):
    '''The checksum of the cache file was found equal to a stored one.'''
    def p(a):
        if a[0] != 'eq':
            return False
        x, y = a[1], a[2]
        return any(mention(u, 'sha256_fh', 'sha256', 'digest') and row_of(w) for u, w in ((x, y), (y, x)))
    return known_true(known, p)


def mention(t, *names):
    return any(u[0] == 'res' and u[1].rpartition('.')[2] in names for u in subterms(t))


def in_unlinked(terms, tr):
    return any(e[0] == 'is-unlinked' and any(e[1] == u for t in terms for u in subterms(t)) for e in tr)


def compares_objects(tr):
    return any(e[0] == 'sql' and e[1].kind == 'create' and re.search(r'\bobjects\.refcount\b', e[1].text, re.I) for e in tr)


def zero_refs(s):
    try:
        t = where_tokens(s.text)
        return bool(t) and evaluate(t, {'refcount': 0}) is True and evaluate(t, {'refcount': 1}) is not True
    except Undecided:
        return False


@check('K01', explanation='''Every method the checker runs is analysed over all paths: on a path that returns after changing a row of a
permanent table, deleting a cache file or a backend object, or reporting a problem, the error flag was set. Exempt are only the removal
of cache files whose checksum was found equal to the stored one and of objects this run itself unlinked. Every method has a path that
reports nothing, the conditions that select rows to repair are decided by cases and hold only for inconsistent rows, and the flags
determine exit status and upload.''')
def k01(ctx):
    ctx.rule('flagged', 'a path that repairs or reports something records that errors were found')
    ctx.rule('clean-path', 'every check can finish without reporting anything')
    ctx.rule('kept', 'recorded errors are not forgotten')
    ctx.rule('only-inconsistent', 'repairs are made only for rows that are inconsistent')
    ctx.rule('uncorrectable', 'dangling references left after all repairs are recorded as uncorrectable')
    ctx.rule('status', 'the flags determine the exit status and the kind of metadata upload')
    tables = real(ctx)
    for fi, eng, outs in run_methods(ctx):
        clean = False
        for o in outs:
            tr = o.st.auto
            if o.kind != 'return':
                continue
            flagged = any(e[0] == 'flag' and e[1] == 'found_errors' and e[2] != FALSE for e in tr)
            for e in tr:
                if e[0] == 'flag':
                    ctx.ok('kept', fi.short)
                    if is_const(e[2]) and not cval(e[2]):
                        kviol(ctx, 'kept', fi, eng, o, '%s is cleared' % e[1], 'cleared ' + e[1])
            if not flagged:
                tr = tuple(e for e in tr if not from_empty(e, o.st.auto))
                bad = next((d for d in (describe(e, tr, i, tables) for i, e in enumerate(tr)) if d), None)
                if bad:
                    kviol(ctx, 'flagged', fi, eng, o, '%s without recording an error' % bad, bad)
                else:
                    clean = True
            else:
                ctx.ok('flagged', fi.short)
        ctx.ok('clean-path', fi.short)
        if not clean:
            ctx.violate('clean-path', fi.qual, '%s reports an error whatever it finds' % fi.short, fi.loc())
        conditions(ctx, fi, eng, outs)
        if fi.name == 'check_foreign_keys':
            foreign(ctx, fi, eng, outs)
    for m in methods_of(ctx.repo, CLS, known_only=False):
        if m.name in ('__init__', 'check'):
            continue
    status(ctx)
    ctx.floor('flagged', 20)
    ctx.floor('uncorrectable', 1)
    ctx.floor('status', 4)
    ctx.floor('only-inconsistent', 6)


def from_empty(e, tr):
    '''Is this an iteration over a list to which the path has added nothing?'''
    ps = e[2] if e[0] == 'sql' else (e[1],) if e[0] == 'unlinked' else e[2] if e[0] in ('help', 'backend') else ()
    for p in ps:
        for u in subterms(p):
            if u[0] == 'elem' and u[1][0] == 'obj' and not any(x[0] == 'append' and x[1] == u[1] for x in tr):
                return True
    return False


def describe(e, tr, i, tables):
    '''What a label changes or reports that has to be recorded as an error (None if nothing).'''
    if e[0] == 'log':
        return 'a problem is reported'
    if e[0] == 'unlinked':
        return 'an object is scheduled for removal'
    if e[0] == 'help' and e[1] in ('_add_name', '_del_name', 'create_inode'):
        return '%s changes metadata' % e[1]
    if e[0] == 'sql' and e[1].kind in MOD and e[1].table in tables:
        s = e[1]
        if s.kind == 'delete' and s.table == 'objects':
            if in_unlinked(e[2], tr[:i]):
                return None
            if zero_refs(s) and compares_objects(tr[:i]):
                return None
        return '%s %s' % (s.kind, s.table)
    if e[0] == 'sql' and e[1].kind in ('drop', 'alter') and getattr(e[1], 'what', '') == 'table' and e[1].table in tables:
        return '%s table %s' % (e[1].kind, e[1].table)
    if e[0] == 'file':
        if e[1] in ('unlink', 'remove') and hash_match(e[3]):
            return None
        return '%s of a file' % e[1]
    if e[0] == 'backend' and e[1] in ('delete', 'delete_multi', 'write_fh', 'store'):
        if e[1] == 'delete':
            if in_unlinked(e[2], tr[:i]):
                return None
            q = next((row_of(u) for u in key_terms(e[2])), None)
            if q is not None and zero_refs(q[0]) and q[0].table == 'objects' and compares_objects(tr[:i]):
                return None
        return 'backend %s' % e[1]
    return None


def key_terms(args):
    '''Terms from which an object name is made up.'''
    for a in args[:1]:
        if a[0] == 'fmt':
            yield from a[2]
        else:
            yield a


# which rows may be repaired: condition per repaired column, decided by cases
def conditions(ctx, fi, eng, outs):
    for o in outs:
        if o.kind != 'return':
            continue
        tr = o.st.auto
        for e in tr:
            if e[0] != 'sql' or e[1].kind not in ('update', 'delete'):
                continue
            s = e[1]
            if re.search(r'(!=|<>)\s*\?|\?\s*(!=|<>)', s.text) and s.table in real(ctx):
                kviol(ctx, 'only-inconsistent', fi, eng, o, '%s of %s changes all rows except those of one value' % (s.kind, s.table),
                      '%s %s others' % (s.kind, s.table))
            if s.table == 'inodes' and s.kind == 'update' and 'size' in s.cols:
                for x in tr:
                    why = extent(x[1].text, x[1].kind) if x[0] == 'sql' else None
                    if why is not None:
                        ctx.ok('only-inconsistent', fi.short + ' extent')
                        if why:
                            kviol(ctx, 'only-inconsistent', fi, eng, o, why, 'extent')
            p = where_param(e, 'id') or where_param(e, 'rowid')
            if p is None:
                continue
            r = row_of(resolve(p, tr))
            if r is None:
                continue
            text = effective(r[0], tr)
            why = wrong_condition(text, s, e, tr)
            if why is None:
                continue
            ctx.ok('only-inconsistent', fi.short)
            if why:
                kviol(ctx, 'only-inconsistent', fi, eng, o, '%s of %s: %s' % (s.kind, s.table, why), '%s %s' % (s.kind, s.table))


def extent(text, kind):
    '''None: does not compute how far the blocks of a file reach; '' if it gives at most the end of the last block; else the reason.'''
    m = re.search(r'\bmax\s*\(((?:[^()]|\([^()]*\))*)\)', text, re.I)
    if kind not in ('insert', 'create') or not m or not re.search(r'\bblockno\b', m.group(1), re.I):
        return None
    x = re.sub(r'\b\w+\.(?=\w)', '', m.group(1).lower()).replace('?', 'S')
    x = re.sub(r'%\(\w+\)[sd]', 'S', x)
    if not re.fullmatch(r'(?:blockno|length|S|\d+|[\s*+()-])+', x):
        return None
    for b in (0, 1, 3):
        for n in (1, 5):
            try:
                got = eval(x, {'__builtins__': {}}, {'blockno': b, 'length': n, 'S': 8})  # arithmetic on three names only
            except Exception:  # noqa: BLE001
                return None
            if got > b * 8 + n:
                return 'files are considered too small although they contain their last block'
    return ''


def resolve(t, tr):
    '''A value taken from a list of collected values.'''
    if t[0] == 'elem' and t[1][0] == 'obj':
        got = [e[2] for e in tr if e[0] == 'append' and e[1] == t[1]]
        if got:
            return got[-1]
    if t[0] == 'item' and t[1][0] == 'elem' and t[1][1][0] == 'obj' and is_const(t[2]):
        got = [e[2] for e in tr if e[0] == 'append' and e[1] == t[1][1]]
        if got and got[-1][0] == 'tuple' and isinstance(t[2][1], int) and t[2][1] + 1 < len(got[-1]):
            return got[-1][t[2][1] + 1]
    return t


def where_param(e, col):
    s = e[1]
    v = s.where_eq(col)
    if isinstance(v, tuple) and v[0] == '?' and v[1] < len(e[2]):
        return e[2][v[1]]
    return None


def cases(toks, envs):
    out = []
    for env in envs:
        try:
            out.append(evaluate(toks, env) is True)
        except Undecided as exc:
            return str(exc)
    return out


def wrong_condition(text, s, e, tr):
    '''None: not a condition this rule knows; '' if it selects only inconsistent rows; else the reason.'''
    toks = where_tokens(text)
    m = re.search(r'\b(\w+)\.refcount\b.*\b(\w+)\.refcount\b', text, re.I)
    if m and s.table in ('names', 'inodes', 'objects') and re.search(r'\bleft\b', text, re.I):
        a, b = count_columns(text, s.table)
        if a is None:
            return None
        got = cases(toks, [{a: x, b: y} for x in (0, 1, 2) for y in (0, 1, 2) if x == y])
        if isinstance(got, str):
            return 'the condition is not decidable (%s)' % got
        return 'rows whose stored count equals the counted one are repaired' if any(got) else ''
    if s.table == 'inodes' and s.kind == 'update' and set(s.cols) == {'size'}:
        new = e[2][s.cols['size'][0][1]] if s.cols['size'][0][0] == '?' else None
        if new is None:
            return None
        r = row_of(new)
        c = col_name(r[0], r[1], tr) if r else None
        if c is None:
            return None
        got = cases(toks, [{'size': x, c: y} for x in (0, 1, 2) for y in (0, 1, 2) if x >= y])
        if isinstance(got, str):
            return None
        return 'the size of files that are large enough is changed' if any(got) else ''
    ref = missing_reference(text)
    if ref is not None:
        (src, col), (dst, dcol) = ref
        got = cases(toks, [{'%s.%s' % (dst, dcol): 1, col: 1}])
        if isinstance(got, str):
            return None
        return 'rows with an existing %s are repaired' % dst if any(got) else ''
    return None


def count_columns(text, table):
    '''(stored count column, counted column) of a comparison with a working table.'''
    cols = {x.lower() for x in re.findall(r'\b\w+\.refcount\b', text, re.I)}
    mine = '%s.refcount' % table
    other = cols - {mine}
    if mine in cols and len(other) == 1:
        return mine, other.pop()
    return None, None


def missing_reference(text):
    '''((table, column), (table, column)) for a query for rows whose reference does not resolve.'''
    m = re.search(r'\bfrom\s+(\w+)\s+(?:as\s+\w+\s+)?left\s+(?:outer\s+)?join\s+(\w+)\s+on\s+\(?\s*([\w.]+)\s*=+\s*([\w.]+)', text, re.I)
    if m:
        src, dst = m.group(1).lower(), m.group(2).lower()
        a, b = m.group(3).lower(), m.group(4).lower()
        if a.startswith(dst + '.'):
            a, b = b, a
        if not b.startswith(dst + '.'):
            return None
        return (src, a.rpartition('.')[2]), (dst, b.rpartition('.')[2])
    m = re.search(r'\bfrom\s+(\w+)\s+where\s+([\w.]+)\s+not\s+in\s*\(\s*select\s+(\w+)\s+from\s+(\w+)\s*\)\s*$', text, re.I)
    if m:
        return (m.group(1).lower(), m.group(2).lower().rpartition('.')[2]), (m.group(4).lower(), m.group(3).lower())
    m = re.search(r'\bfrom\s+(\w+)\s+where\s+not\s+exists\s*\(\s*select\s+.*?\s+from\s+(\w+)\s+where\s+([\w.]+)\s*=+\s*([\w.]+)\s*\)\s*$', text, re.I)
    if m:
        src, dst = m.group(1).lower(), m.group(2).lower()
        a, b = m.group(3).lower(), m.group(4).lower()
        if a.startswith(dst + '.') or a == 'id':
            a, b = b, a
        return (src, a.rpartition('.')[2]), (dst, b.rpartition('.')[2])
    return None


def foreign(ctx, fi, eng, outs):
    '''Every row found by the final reference check is recorded as uncorrectable.'''
    deep = max((sum(1 for e in o.st.auto if e[0] == 'iter') for o in outs), default=0)
    for o in outs:
        tr = o.st.auto
        if o.kind != 'return':
            continue
        q = [e for e in tr if e[0] == 'sql' and e[1].kind == 'select' and re.search(r'\bnull\b', e[1].text, re.I)]
        if not q or sum(1 for e in tr if e[0] == 'iter') < deep:
            continue
        ctx.ok('uncorrectable', fi.short)
        for f in ('found_errors', 'uncorrectable_errors'):
            if not any(e[0] == 'flag' and e[1] == f and e[2] == TRUE for e in tr):
                kviol(ctx, 'uncorrectable', fi, eng, o, 'a dangling reference left after all repairs does not set %s' % f, f)
        if not any(re.search(r'\bleft\s+(outer\s+)?join\b.*\bis null\b', e[1].text, re.I) or
                   re.search(r'not\s+(in|exists)', e[1].text, re.I) for e in q):
            kviol(ctx, 'uncorrectable', fi, eng, o, 'rows without a referenced row are not looked for', 'query')
        for e in q:
            # only the comparison with the referenced table and "IS NOT NULL" may restrict the rows
            w = e[1].text.lower().rpartition(' where ')[2]
            for c in re.split(r'\band\b', w):
                if not re.search(r'\bis\s+(not\s+)?null\s*$', c.strip().rstrip(';')):
                    kviol(ctx, 'uncorrectable', fi, eng, o, 'only some dangling references are looked for (%s)' % c.strip(), 'restricted')
    if not any(e[0] == 'sql' and e[1].kind == 'pragma' and 'foreign_key_list' in e[1].text for o in outs for e in o.st.auto) and not any(
            'foreign_key_check' in e[1].text for o in outs for e in o.st.auto if e[0] == 'sql'):
        ctx.violate('uncorrectable', fi.qual + ': tables', 'the final check does not go through the declared references', fi.loc())


class StatusMonitor(MetaMonitor):
    def step(self, auto, ev, st, eng):
        auto = super().step(auto, ev, st, eng)
        if ev.kind == 'call' and ev.qual in ('sys.exit', 'os._exit', 'builtins.SystemExit', 'builtins.exit'):
            return auto + (('exit', ev.args[0] if ev.args else NONE),)
        if ev.kind == 'call' and ev.name == 'QuietError':
            return auto + (('quiet', ev.arg(1, 'exitcode', ('const', 1, 'int'))),)
        for n in ('found_errors', 'uncorrectable_errors'):
            for v in (True, False):
                lab = ('known', n, v)
                if lab not in auto and any(x is v and a[0] == 'true' and is_attr(a[1], n) for a, x in st.facts.items()):
                    auto = auto + (lab,)
        return auto

    def branch(self, auto, atom, val, st, eng):
        if atom[0] == 'true' and any(is_attr(atom[1], n) for n in ('found_errors', 'uncorrectable_errors')):
            lab = ('known', atom[1][2], val)
            return auto if lab in auto else auto + (lab,)
        return auto


def ending(o):
    '''Exit status of a path (None if it ends with another exception).'''
    for e in reversed(o.st.auto):
        if e[0] == 'exit':
            return 0 if e[1] == NONE else cval(e[1]) if is_const(e[1]) else '?'
        if e[0] == 'quiet' and o.kind == 'raise' and o.val and o.val[1].endswith('QuietError'):
            return cval(e[1]) if is_const(e[1]) else '?'
    return 0 if o.kind == 'return' else None


def status(ctx):
    fi = ctx.repo.func('s3ql.fsck.fsck')

    eng, outs = ctx.run(fi, MetaPolicy(), StatusMonitor())
    for o in outs:
        tr = o.st.auto
        i = next((i for i, e in enumerate(tr) if e[0] == 'fsck-done'), None)
        if i is None:
            continue
        code = ending(o)
        dec = {(e[1]): e[2] for e in tr[i:] if e[0] == 'known'}
        unc, found = dec.get('uncorrectable_errors'), dec.get('found_errors')
        if code is None:
            continue
        ctx.ok('status', 'exit %s' % code)
        if unc is True:
            if code != 172:
                mviol(ctx, 'status', fi, eng, o, 'exit status %s although uncorrectable errors were found' % code, 'uncorrectable')
            if any(e[0] in ('begin',) and e[1] in ('upload_metadata',) for e in tr[i:]):
                mviol(ctx, 'status', fi, eng, o, 'metadata with uncorrectable errors is uploaded', 'uncorrectable-upload')
            continue
        if unc is not False:
            mviol(ctx, 'status', fi, eng, o, 'finishes with exit status %s without looking at uncorrectable errors' % code, 'unc-ignored')
        if found is True and code != 128 or found is False and code != 0 or found is None:
            mviol(ctx, 'status', fi, eng, o, 'exit status %s (errors found: %s)' % (code, found), 'exit')
        if found is True:
            for e in tr[i:]:
                if e[0] == 'upload_metadata':
                    kw = dict(e[2])
                    inc = kw.get('incremental', e[1][3] if len(e[1]) > 3 else TRUE)
                    if inc != FALSE:
                        mviol(ctx, 'status', fi, eng, o, 'repairs are uploaded incrementally', 'incremental')


# -------------------------------------------------------------------------------------------
# K02


def effects(ctx):
    '''name -> (FuncInfo, engine, outcomes) of every check, in the order in which they run.'''
    return {fi.name: (fi, eng, outs) for fi, eng, outs in run_methods(ctx)}


def stmts(outs):
    seen = set()
    for o in outs:
        for e in o.st.auto:
            if e[0] == 'sql' and e[1].text not in seen:
                seen.add(e[1].text)
                yield e[1]


def count_sources(outs, table, tables):
    '''(table, column) pairs counted for the comparison with the stored count of *table*, with reasons why a count is not exact.'''
    got, why = set(), []
    texts = [s.text for s in stmts(outs) if re.search(r'\bcount\s*\(', s.text, re.I) and not (
        s.kind == 'select' and not re.search(r'\bgroup\s+by\b', s.text, re.I))]
    for t in texts:
        if re.search(r'\bdistinct\b', t, re.I):
            why.append('duplicates are not counted')
        if re.search(r'\bunion\b(?!\s+all)', t, re.I):
            why.append('duplicates are dropped before counting')
        for m in re.finditer(r'\bfrom\s+(\w+)\b', t, re.I):
            src = m.group(1).lower()
            if src not in tables:
                continue
            for c in tables[src].cols:
                if re.search(r'(?<![.\w])(?:%s\.)?%s\b' % (src, c), t, re.I):
                    got.add((src, c))
            rest = t[m.end():]
            w = re.match(r'\s*where\s+(.*?)(?:\)|\bgroup\b|\bunion\b|$)', rest, re.I | re.S)
            if w and not re.match(r'^\s*[\w.]+\s*=+\s*[\w.]+\s*$', w.group(1)):
                why.append('only some rows of %s are counted (%s)' % (src, w.group(1).strip()))
            if re.match(r'\s*(limit|having)\b', rest, re.I):
                why.append('only some rows of %s are counted' % src)
    return got, why


# the stored counts and the columns whose entries they count
def expected_counts(tables):
    exp = {}
    for x in ('names', 'objects'):
        exp[x] = {(t, c) for t, tab in tables.items() for c, (d, _) in ref_items(tab) if d == x}
    exp['inodes'] = {('contents', 'inode')}
    return exp


def ref_items(tab):
    for c, d in references(tab).items():
        yield c, d if isinstance(d, tuple) else (d, 'id')


@check('K02', explanation='''The declared references and counts of the schema are the obligations: for each there has to be a check, run
unconditionally by Fsck.check, whose query selects exactly the rows with a missing target (or a different count; conditions are
decided by cases) and whose path for such a row repairs it. From the statements each check executes, the order of checks is verified:
whatever deletes rows precedes the check of the references to them, whatever changes counted rows precedes the check of the count.''')
def k02(ctx):
    ctx.rule('reference-checked', 'each reference is checked by a query for the rows whose target is missing, and such rows are repaired')
    ctx.rule('count-checked', 'each stored count is compared with the number of rows referring to it and corrected')
    ctx.rule('all-run', 'every check runs in every complete check')
    ctx.rule('order', 'a check runs after everything that changes the rows it depends on')
    tables = schema.tables(ctx.repo)
    eff = effects(ctx)
    pos = {n: i for i, n in enumerate(eff)}

    # all run
    fi, eng, outs = self_calls(ctx)
    known = [m for m in methods_of(ctx.repo, CLS) if m.name.startswith('check_')]
    called = {c for o in outs for c in (e[0] for e in o.st.auto)}
    for m in known:
        ctx.ok('all-run', m.short)
        if m.name not in called:
            # its statements may have been moved into another method
            if any(x.name != m.name and m.qual in reach(ctx, x) for x in known if x.name in called):
                continue
            ctx.violate('all-run', m.qual, '%s is never run by a complete check' % m.short, m.loc())
    for o in outs:
        names = [e[0] for e in o.st.auto]
        for n in called:
            if n not in names and not (n == 'check_cache' and not_dirty(o, fi)):
                kviol(ctx, 'all-run', fi, eng, o, '%s is not run on every path' % n, 'skips ' + n)
        for e in o.st.auto:
            m = ctx.repo.cls(CLS).methods.get(e[0])
            if m is not None and m.is_async and not e[3]:
                kviol(ctx, 'all-run', fi, eng, o, '%s is started but not awaited' % e[0], 'not awaited ' + e[0])

    # references
    ref_check = {}
    for src, tab in sorted(tables.items()):
        for col, (dst, dcol) in ref_items(tab):
            ref_check[src, col] = reference_rule(ctx, eff, src, col, dst, dcol)
    # counts
    cnt_check = {}
    for x, exp in expected_counts(tables).items():
        cnt_check[x] = count_rule(ctx, eff, x, exp, tables)
    ordering(ctx, eff, pos, ref_check, cnt_check, tables)
    ctx.floor('reference-checked', 8)
    ctx.floor('count-checked', 3)
    ctx.floor('all-run', 15)
    ctx.floor('order', 15)


def reach(ctx, m):
    import ast

    out = set()
    for n in ast.walk(m.node):
        if isinstance(n, ast.Attribute) and n.attr in ctx.repo.cls(CLS).methods:
            out.add(ctx.repo.cls(CLS).methods[n.attr].qual)
    return out


def not_dirty(o, fi):
    '''Did the path find the argument check_cache false?'''
    return any(a[0] == 'true' and a[1][0] == 'param' and v is False for a, v in o.st.facts.items())


def row_paths(outs, pred):
    '''Outcomes on which a row of a query satisfying pred was processed.'''
    for o in outs:
        if o.kind != 'return':
            continue
        for e in o.st.auto:
            if e[0] == 'iter':
                r = row_of(('item', ('elem', e[1], 0), ('const', 0, 'int')))
                if r is not None and pred(r[0], o.st.auto):
                    yield o
                    break


def reference_rule(ctx, eff, src, col, dst, dcol):
    ctx.ok('reference-checked', '%s.%s -> %s' % (src, col, dst))
    reasons = []
    for n, (fi, eng, outs) in eff.items():
        for s in stmts(outs):
            text = s.text
            if s.kind not in ('select', 'delete', 'update'):
                continue
            ref = missing_reference(text)
            if ref is None or ref[0] != (src, col) or ref[1][0] != dst:
                continue
            if re.search(r'\bleft\b', text, re.I):
                got = cases(where_tokens(text), [{'%s.%s' % (dst, ref[1][1]): None, '%s.%s' % (src, col): 1},
                                                 {'%s.%s' % (dst, ref[1][1]): 1, '%s.%s' % (src, col): 1}])
                if isinstance(got, str) or not got[0]:
                    reasons.append('the query in %s does not select every row whose %s is missing' % (n, dst))
                    continue
            if re.search(r'\blimit\b', text, re.I):
                reasons.append('the query in %s is limited' % n)
                continue
            if s.kind == 'select':
                bad = [o for o in row_paths(outs, lambda q, tr: q.text == text)
                       if not repaired(o.st.auto, src, col, text)]
                some = any(True for o in row_paths(outs, lambda q, tr: q.text == text))
                if not some or bad:
                    reasons.append('%s finds such rows but does not repair them on every path' % n)
                    if bad:
                        kviol(ctx, 'reference-checked', fi, eng, bad[0], 'a row of %s with missing %s is found but not repaired' % (src, dst),
                              '%s.%s' % (src, col))
                        return n
                    continue
            return n
    ctx.violate('reference-checked', '%s.%s' % (src, col), 'rows of %s whose %s refers to a missing row of %s are not repaired%s' % (
        src, col, dst, ': ' + reasons[0] if reasons else ''), ctx.repo.func(CLS + '.check').loc())
    return None


def repaired(tr, src, col, text):
    '''The row was deleted or the reference replaced.'''
    for e in tr:
        if e[0] != 'sql' or e[1].table != src:
            continue
        s = e[1]
        if s.kind == 'delete' or s.kind == 'update' and col in s.cols:
            ps = [e[2][v[1]] for v in (s.where_eq('rowid'), s.where_eq('id')) if isinstance(v, tuple) and v[0] == '?' and v[1] < len(e[2])]
            if not ps and s.kind == 'delete' and (missing_reference(s.text) or re.search(r'\bselect\b', s.text, re.I)):
                return True
            for p in ps:
                if p[0] == 'elem' and p[1][0] == 'obj' and from_empty(e, tr):
                    continue
                r = row_of(resolve(p, tr))
                if r is None or r[0].text == text:
                    return True
    # the loop over collected rows was left out (the path went through it zero times)
    for e in tr:
        if e[0] == 'append' and (row_of(e[2]) or (parse(''), 0))[0].text == text and not any(
                x[0] == 'iter' and x[1] == e[1] for x in tr):
            return 'unknown'
    return False


def count_rule(ctx, eff, x, exp, tables):
    ctx.ok('count-checked', x)
    loc = ctx.repo.func(CLS + '.check').loc()
    why = []
    for n, (fi, eng, outs) in eff.items():
        fixes = [(o, e) for o in outs if o.kind == 'return' for e in o.st.auto
                 if e[0] == 'sql' and e[1].kind == 'update' and e[1].table == x and 'refcount' in e[1].cols and stored(e)]
        fixes = [(o, e) for o, e in fixes if from_row(e, o.st.auto)]
        if not fixes:
            continue
        got, bad = count_sources(outs, x, tables)
        miss = exp - got
        if miss:
            why.append('%s does not count %s' % (n, ', '.join('%s.%s' % m for m in sorted(miss))))
            continue
        if bad:
            why.append('%s: %s' % (n, bad[0]))
            continue
        o, e = fixes[0]
        r = row_of(e[2][e[1].cols['refcount'][0][1]])
        text = effective(r[0], o.st.auto)
        a, b = count_columns(text, x)
        if a is None:
            why.append('%s does not compare stored with counted numbers' % n)
            continue
        got = cases(where_tokens(text), [{a: i, b: j} for i in (0, 1, 2) for j in (0, 1, 2, None) if i != j])
        if isinstance(got, str) or not all(got):
            why.append('%s does not find every wrong count (%s)' % (n, text[:140]))
            continue
        if re.search(r'\b(limit|group)\b', text, re.I) or not re.search(r'\bleft\b', text, re.I):
            why.append('%s compares only some rows' % n)
            continue
        for o, e in fixes:
            r = row_of(e[2][e[1].cols['refcount'][0][1]])
            c = col_name(r[0], r[1], o.st.auto)
            if c != b:
                kviol(ctx, 'count-checked', fi, eng, o, 'the count of %s is set to %s instead of the counted number' % (x, c), x + ' value')
            w = where_param(e, 'id')
            rw = row_of(w) if w is not None else None
            if rw is None or (col_name(rw[0], rw[1], o.st.auto) or '').rpartition('.')[2] != 'id':
                kviol(ctx, 'count-checked', fi, eng, o, 'the corrected count of %s is stored in another row' % x, x + ' row')
        for o in row_paths(outs, lambda q, tr: effective(q, tr) == text):
            if not any(e[0] == 'sql' and e[1].kind in ('update', 'delete') and e[1].table == x for e in o.st.auto) and not special(o):
                kviol(ctx, 'count-checked', fi, eng, o, 'a wrong count of %s is found but not corrected' % x, x + ' ignored')
        return n
    ctx.violate('count-checked', x, 'the stored counts of %s are not checked against the rows referring to them%s' % (
        x, ': ' + why[0] if why else ''), loc)
    return None


def special(o):
    '''The row is one of the fixed inodes.'''
    def fixed(t):
        return any(u[0] == 'global' and u[1].rpartition('.')[2] in ('ROOT_INODE', 'CTRL_INODE') or is_const(u) and cval(u) in (1, 2, (1, 2))
                   for u in subterms(t))
    return any((a[0] == 'in' and fixed(a[2]) or a[0] == 'eq' and (fixed(a[1]) or fixed(a[2]))) and v is True
               for a, v in o.st.facts.items())


def stored(e):
    v = e[1].cols['refcount']
    return len(v) == 1 and isinstance(v[0], tuple) and v[0][0] == '?' and v[0][1] < len(e[2])


def from_row(e, tr):
    r = row_of(e[2][e[1].cols['refcount'][0][1]])
    return r is not None and temp_body(tr, r[0].table) is not None or r is not None and 'refcount' in r[0].text.lower()


def writes_of(outs, ctx):
    '''(kind, table, columns, statement) of every change, with the helpers resolved.'''
    for s in stmts(outs):
        if s.kind in MOD:
            yield s.kind, s.table, set(s.cols), s
    for o in outs:
        for e in o.st.auto:
            if e[0] == 'help' and e[1] == '_del_name':
                yield 'release', 'names', set(), None
                return


def ordering(ctx, eff, pos, ref_check, cnt_check, tables):
    fi0 = ctx.repo.func(CLS + '.check')

    def before(a, b, why):
        '''Check a has to run before check b.'''
        if a == b or a is None or b is None:
            return
        ctx.ok('order', '%s before %s' % (a, b))
        if pos[a] > pos[b]:
            ctx.violate('order', '%s: %s after %s' % (fi0.qual, a, b), '%s runs after %s: %s' % (a, b, why), fi0.loc())

    refs = {(t, c): d for t, tab in tables.items() for c, d in ref_items(tab)}
    last_ = 'check_foreign_keys' if 'check_foreign_keys' in eff else None
    loops = 'check_loops' if 'check_loops' in eff else None
    for n, (fi, eng, outs) in eff.items():
        for kind, table, cols, s in writes_of(outs, ctx):
            if table not in tables:
                continue
            if kind in ('delete', 'replace') and table != 'names':
                for (src, col), (dst, _) in refs.items():
                    if dst == table:
                        before(n, ref_check.get((src, col)), '%s deletes rows of %s to which %s.%s refers' % (n, table, src, col))
            if kind == 'delete' and table == 'names' or kind == 'release':
                if n != cnt_check.get('names'):
                    before(cnt_check.get('names'), n, '%s removes names whose count is zero, which may be wrong' % n)
            # counted rows
            for x, srcs in expected_counts(tables).items():
                if x == 'names':
                    continue
                for src, col in srcs:
                    if table != src or kind == 'update' and col not in cols:
                        continue
                    if kind == 'delete' and ref_check.get((src, col)) == n:
                        continue  # rows that refer to nothing
                    before(n, cnt_check.get(x), '%s changes rows of %s that are counted in %s.refcount' % (n, table, x))
            if table == 'contents' and (kind != 'update' or 'parent_inode' in cols):
                before(n, loops, '%s moves directory entries after their reachability was checked' % n)
            before(n, last_, '%s changes %s after the final check of references' % (n, table))
        for o in outs:
            for e in o.st.auto:
                if e[0] == 'help' and e[1] == 'resolve_free':
                    before('check_lof' if 'check_lof' in eff else None, n, '%s needs the recovery directory' % n)
                    break
            else:
                continue
            break
    uses = {n: {e[1] for o in outs for e in o.st.auto if e[0] == 'backend'} for n, (fi, eng, outs) in eff.items()}
    listing = [n for n, (fi, eng, outs) in eff.items() if 'contains' in uses[n] or any(
        e[0] == 'iter' and e[1] is not None and mention(e[1], 'list') and not mention(e[1], 'sorted') for o in outs for e in o.st.auto)]
    for n, u in uses.items():
        if u & {'get_size', 'lookup', 'fetch', 'open_read', 'readinto_fh'} and n not in listing:
            for m in listing:
                before(m, n, '%s reads objects which may not exist in the backend' % n)
    if 'check_cache' in eff:
        for n, (fi, eng, outs) in eff.items():
            if any(s.tables & {'objects', 'inode_blocks'} for s in stmts(outs)):
                before('check_cache', n, '%s examines blocks and objects' % n)


# -------------------------------------------------------------------------------------------
# K03


class CacheMonitor(FsckMonitor):
    '''Adds what happens to the open cache file.'''

    def label(self, ev, st, eng):
        lab = super().label(ev, st, eng)
        if lab is not None:
            return lab
        if ev.kind == 'ret' and ev.qual == 'builtins.open':
            return ('open', ev.args[0] if ev.args else None, ev.res, ev.arg(1, 'mode'))
        if ev.kind == 'ret' and ev.name == 'seek' and ev.recv is not None:
            return ('seek', ev.recv, ev.args)
        if ev.kind == 'ret' and ev.name not in ('fileno', 'fstat', 'close', 'tell', 'debug', 'info'):
            use = tuple(a for a in ev.args if a[0] == 'res' and a[1].rpartition('.')[2] == 'open')
            if ev.recv is not None and ev.recv[0] == 'res' and ev.recv[1].rpartition('.')[2] == 'open':
                use += (ev.recv,)
            if use:
                return ('use', use)
        return None

    def branch(self, auto, atom, val, st, eng):
        auto = super().branch(auto, atom, val, st, eng)
        if relevant(atom):
            lab = ('dec', atom, val)
            if lab not in auto:
                return auto + (lab,)
        return auto


@check('K03', explanation='''Path analysis of the checker: a file of the local cache is deleted only on paths where its content was found
identical to a completely stored object, or was stored (awaited) under the object the block now refers to, read from its beginning.
Rows of entries, attributes and blocks are deleted only when selected by a query for a missing target, inodes never, objects only when
unreferenced, without checksum or not in the backend; entries that lost their target or parent get a free name in the recovery
directory; backend objects are deleted only if selected as not being in the table of objects.''')
def k03(ctx):
    ctx.rule('cache-stored', 'a cache file is deleted only after its content was stored under the object the block refers to')
    ctx.rule('block-link', 'a stored cache block is linked to its inode and the counts of the objects follow')
    ctx.rule('only-dangling', 'rows with user data are deleted only if what they refer to does not exist')
    ctx.rule('objects-kept', 'backend objects are deleted only if the table of objects does not contain them')
    ctx.rule('objects-row', 'rows of objects are deleted only if nothing refers to them or their data does not exist')
    ctx.rule('recovered', 'entries that lost their place are moved to the recovery directory')
    ctx.rule('free-name', 'a name in the recovery directory is used only after it was found unused')
    ctx.rule('cache-first', 'cached blocks are committed before blocks and objects are checked')
    tables = schema.tables(ctx.repo)
    eff = effects(ctx)
    pos = {n: i for i, n in enumerate(eff)}
    fi = ctx.repo.cls(CLS).methods.get('check_cache')
    if fi is None:
        ctx.violate('cache-stored', CLS, 'cached blocks are not examined')
    else:
        eng, outs = ctx.run(fi, FsckPolicy(), CacheMonitor())
        for o in outs:
            cache_path(ctx, fi, eng, o)
        for n, (f, e, os_) in eff.items():
            if n != 'check_cache' and any(s.tables & {'objects', 'inode_blocks'} for s in stmts(os_)):
                ctx.ok('cache-first', n)
                if pos.get('check_cache', 99) > pos[n]:
                    ctx.violate('cache-first', n, '%s runs before cached blocks are committed' % n, f.loc())
    for n, (f, eng, outs) in eff.items():
        mon = CacheMonitor()
        mon.want = {'sql', 'append', 'backend', 'help', 'iter', 'dec', 'unlinked', 'is-unlinked'}
        if n == 'check_unix':
            mon.want = {'sql', 'append', 'backend', 'help'}
        eng, outs = ctx.run(f, FsckPolicy(), mon)
        for o in outs:
            if o.kind == 'return':
                deletions(ctx, f, eng, o, tables)
        recovery(ctx, f, eng, outs)
    free_name(ctx)
    for r, k in (('cache-stored', 2), ('block-link', 2), ('only-dangling', 4), ('objects-kept', 2), ('objects-row', 3), ('recovered', 4),
                 ('free-name', 1), ('cache-first', 4)):
        ctx.floor(r, k)


def row_val(e, col):
    v = e[1].cols.get(col)
    if v and len(v) == 1 and isinstance(v[0], tuple):
        if v[0][0] == '?':
            return e[2][v[0][1]] if v[0][1] < len(e[2]) else None
        return ('const', v[0][1], type(v[0][1]).__name__)
    return None


def cache_path(ctx, fi, eng, o):
    tr = o.st.auto
    stored_ok = {}
    for i, e in enumerate(tr):
        if e[0] == 'backend' and e[1] in ('write_fh', 'store'):
            ctx.ok('cache-stored', fi.short + ' upload')
            if not e[4]:
                kviol(ctx, 'cache-stored', fi, eng, o, 'the upload of a cached block is not awaited', 'await')
            fh = next((a for a in e[2] + tuple(v for _, v in e[3]) if a[0] == 'res' and a[1].rpartition('.')[2] == 'open'), None)
            if fh is not None:
                j = max((j for j in range(i) if tr[j][0] == 'open' and tr[j][2] == fh), default=-1)
                s = max((j for j in range(i) if tr[j][0] == 'seek' and tr[j][1] == fh and is_zero(tr[j][2])), default=-1)
                u = max((j for j in range(i) if tr[j][0] == 'use' and fh in tr[j][1]), default=-1)
                if u > max(j, s):
                    kviol(ctx, 'cache-stored', fi, eng, o, 'a cached block is uploaded from a file that was already read, not from its beginning',
                          'position')
        if e[0] == 'file':
            if is_tmp(tr, i):
                continue
            ctx.ok('cache-stored', fi.short)
            path = e[2]
            if hash_match(e[3]) or hash_match_tr(tr[:i]):
                if not complete(tr[:i], 'inode_blocks'):
                    kviol(ctx, 'cache-stored', fi, eng, o, 'a cached block is deleted because its checksum is recorded, although the upload may '
                          'not have completed', 'incomplete')
                continue
            link = [x for x in tr[:i] if x[0] == 'sql' and x[1].table == 'inode_blocks' and x[1].kind in ('insert', 'update', 'replace')]
            if not link:
                kviol(ctx, 'cache-stored', fi, eng, o, 'a cached block is deleted without being linked to its inode', 'unlinked')
                continue
            obj = row_val(link[-1], 'obj_id')
            ups = [x for x in tr[:i] if x[0] == 'backend' and x[1] in ('write_fh', 'store')]
            good = any(any(u == obj for u in key_terms(x[2])) and any(npath(path) in subs(npath(a)) for a in x[2] + tuple(v for _, v in x[3])) for x in ups)
            if not good and not ups:
                r = row_of(obj) if obj is not None else None
                good = r is not None and r[0].table == 'objects' and r[0].where_eq('hash') is not None and complete(tr[:i], 'objects')
            if not good:
                kviol(ctx, 'cache-stored', fi, eng, o, 'a cached block is deleted although its content was not stored under the object it '
                      'refers to', 'not stored')
    if o.kind != 'return':
        return
    # links and counts
    for i, e in enumerate(tr):
        if not (e[0] == 'sql' and e[1].table == 'inode_blocks' and e[1].kind in ('insert', 'update', 'replace')):
            continue
        ctx.ok('block-link', fi.short)
        obj = row_val(e, 'obj_id')
        new = [x for x in tr if x[0] == 'sql' and x[1].table == 'objects' and x[1].kind == 'insert' and x[3] == obj]
        inc = [x for x in tr if x[0] == 'sql' and x[1].table == 'objects' and x[1].kind == 'update' and 'refcount' in x[1].cols and
               where_param(x, 'id') == obj and delta(x) == 1]
        n = sum(1 if row_val(x, 'refcount') == ('const', 1, 'int') else 99 for x in new) + len(inc)
        if n != 1:
            kviol(ctx, 'block-link', fi, eng, o, 'the object of a committed block gets %d references instead of one' % n, 'count')
        if e[1].kind == 'update' or e[1].or_ == 'replace' or e[1].kind == 'replace':
            dec = [x for x in tr if x[0] == 'sql' and x[1].table == 'objects' and x[1].kind == 'update' and 'refcount' in x[1].cols and
                   delta(x) == -1 and is_old(where_param(x, 'id'))]
            if len(dec) != 1:
                kviol(ctx, 'block-link', fi, eng, o, 'the object a committed block replaces is released %d times' % len(dec), 'old count')
        for x in new:
            for c in ('hash', 'length', 'phys_size', 'refcount'):
                if c not in x[1].cols:
                    kviol(ctx, 'block-link', fi, eng, o, 'the new object is recorded without %s' % c, c)
            for c in ('hash', 'length'):
                v = row_val(x, c)
                if v is not None and not any(u[0] in ('res', 'elem', 'item', 'loop', 'param') for u in subterms(v)):
                    kviol(ctx, 'block-link', fi, eng, o, 'the %s recorded for the new object is not that of the cached block' % c, c + ' value')
            if row_val(x, 'phys_size') != ('const', -1, 'int') and not is_neg1(x) and not any(
                    y[0] == 'backend' for y in tr[:tr.index(x)]):
                kviol(ctx, 'block-link', fi, eng, o, 'the new object is recorded as completely stored before it is', 'phys_size')


def npath(t):
    '''The term without the identity of calls that only compute a path.'''
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'res' and t[1].startswith(('os.path.', 'os.fspath', 'pathlib.')):
        return ('path', t[1]) + tuple(npath(x) for x in t[3])
    return tuple(npath(x) for x in t)


def subs(t):
    return list(subterms(t))


def is_zero(args):
    return not args or is_const(args[0]) and cval(args[0]) == 0


def is_neg1(x):
    v = x[1].cols.get('phys_size')
    return v and [('-' if t == '-' else t) for t in v] in (['-', ('num', 1)],)


def delta(e):
    '''Constant change of the count, None if it is set otherwise.'''
    v = e[1].cols.get('refcount') or []
    if len(v) == 3 and v[0] == 'refcount' and v[1] in '+-' and isinstance(v[2], tuple) and v[2][0] == 'num':
        return v[2][1] if v[1] == '+' else -v[2][1]
    return None


def is_old(t):
    r = row_of(t) if t is not None else None
    return r is not None and 'inode_blocks' in r[0].tables


def is_tmp(tr, i):
    '''Did the file name match the pattern of temporary files?'''
    for e in tr[:i]:
        if e[0] == 'dec' and e[2] is True and e[1][0] == 'true':
            for u in subterms(e[1][1]):
                if is_const(u) and isinstance(u[1], str) and re.search(r'\\?\.tmp\$?$', u[1]):
                    return True
    for a, v in tr[i][3]:
        if v is True and any(is_const(u) and isinstance(u[1], str) and re.search(r'\\?\.tmp\$?$', u[1]) for u in subterms(a)):
            return True
    return False


def hash_match_tr(tr):
    return hash_match(tuple((e[1], e[2]) for e in tr if e[0] == 'dec'))


def complete(tr, table):
    '''Did the path find that the stored object has a known size?'''
    for e in tr:
        if e[0] != 'dec' or e[1][0] not in ('eq', 'lt'):
            continue
        for x, y in ((e[1][1], e[1][2]), (e[1][2], e[1][1])):
            r = row_of(y)
            if r is None or table not in r[0].tables or (col_name(r[0], r[1]) or '').rpartition('.')[2] != 'phys_size':
                continue
            if e[1][0] == 'eq' and e[2] is False and is_const(x) and cval(x) == -1:
                return True
            if e[1][0] == 'lt' and is_const(x) and isinstance(cval(x), int):
                # phys_size < c false with c >= 0, or c < phys_size true with c >= -1
                if e[1][1] == y and e[2] is False and cval(x) >= 0 or e[1][2] == y and e[2] is True and cval(x) >= -1:
                    return True
    return False


DATA = ('contents', 'ext_attributes', 'symlink_targets', 'inode_blocks')


def deletions(ctx, fi, eng, o, tables):
    tr = o.st.auto
    for i, e in enumerate(tr):
        if e[0] == 'sql' and e[1].kind in ('delete', 'replace') and e[1].table in tables:
            if from_empty(e, tr):
                continue
            s = e[1]
            if s.table == 'inodes':
                ctx.ok('only-dangling', fi.short)
                kviol(ctx, 'only-dangling', fi, eng, o, 'files are deleted', 'inodes')
            elif s.table in DATA:
                ctx.ok('only-dangling', '%s: %s' % (fi.short, s.table))
                why = dangling(e, tr, tables)
                if why:
                    kviol(ctx, 'only-dangling', fi, eng, o, 'rows of %s are deleted %s' % (s.table, why), s.table)
            elif s.table == 'objects':
                ctx.ok('objects-row', fi.short)
                why = object_row(e, tr, i)
                if why:
                    kviol(ctx, 'objects-row', fi, eng, o, why, s.text[:60])
        if e[0] == 'backend' and e[1] in ('delete', 'delete_multi'):
            ctx.ok('objects-kept', fi.short)
            terms = list(key_terms(e[2]))
            r = next((row_of(resolve(t, tr)) for t in terms), None)
            text = effective(r[0], tr) if r else ''
            if r is not None and zero_refs(r[0]) and 'objects' in r[0].tables:
                if not compares_objects(tr[:i]):
                    kviol(ctx, 'objects-kept', fi, eng, o, 'objects are deleted because of a count that was not checked', 'unchecked count')
            elif not re.search(r'\bexcept\s+(all\s+)?select\s+id\s+from\s+objects\s*;?$', text, re.I) and not (
                    (missing_reference(text) or ((), ('', '')))[1][0] == 'objects'):
                kviol(ctx, 'objects-kept', fi, eng, o, 'backend objects are deleted that are not known to be unused (%s)' % text[:80], 'delete')


def dangling(e, tr, tables):
    '''Why the deleted rows may be in use ('' if they refer to something missing).'''
    s = e[1]
    need = {'contents': {'inode'}, 'ext_attributes': {'inode'}, 'symlink_targets': {'inode'}, 'inode_blocks': {'inode', 'obj_id'}}[s.table]
    p = where_param(e, 'rowid')
    if p is None:
        ref = missing_reference(s.text)
        if ref is None and re.search(r'\bselect\b', s.text, re.I):
            ref = missing_reference(s.text[re.search(r'\bselect\b', s.text, re.I).start():].rstrip(') ;'))
        if ref is not None and ref[0][0] == s.table and ref[0][1] in need:
            return ''
        return 'that are not selected by their row number'
    src = [x[2] for x in tr if x[0] == 'append' and p[0] == 'elem' and x[1] == p[1]] or [resolve(p, tr)]
    for t in src:
        r = row_of(t)
        if r is None:
            return '' if any(x[0] == 'sql' and (missing_reference(x[1].text) or (('', ''), 0))[0][0] == s.table for x in tr) else \
                'for which nothing shows that they refer to something missing'
        text = effective(r[0], tr)
        ref = missing_reference(text)
        if ref is None or ref[0][0] != s.table or ref[0][1] not in need:
            return 'that do not refer to something missing'
        got = cases(where_tokens(text), [{'%s.%s' % ref[1]: 1, ref[0][1]: 1}]) if re.search(r'\bleft\b', text, re.I) else [False]
        if isinstance(got, str) or any(got):
            return 'although what they refer to exists'
        c = col_name(r[0], r[1], tr)
        if c is None or c.rpartition('.')[2] != 'rowid':
            return 'with another number than that of the row found (%s)' % c
    return ''


def object_row(e, tr, i):
    s = e[1]
    try:
        toks = where_tokens(s.text)
    except Undecided:
        toks = []
    if any(t == 'hash' for t in toks):
        got = cases(toks, [{'hash': 1, 'refcount': 1}])
        return '' if not isinstance(got, str) and not any(got) else 'objects with a checksum are deleted'
    p = where_param(e, 'id')
    if p is None:
        if zero_refs(s):
            return '' if compares_objects(tr[:i]) else 'objects are deleted because of a count that was not checked'
        return 'objects are deleted that may be in use'
    p = resolve(p, tr)
    r = row_of(p)
    text = effective(r[0], tr) if r else ''
    if re.search(r'\bfrom\s+objects\s+except\s+select\b', text, re.I):
        # not listed: it has to be looked up as well
        if not any(x[0] == 'backend' and x[1] == 'contains' and x[4] for x in tr[:i]):
            return 'objects that are only missing in the listing are deleted'
        if not any(x[0] == 'dec' and x[1][0] == 'true' and x[2] is False and mention(x[1][1], 'contains') for x in tr[:i]):
            return 'objects that exist in the backend are deleted from the table'
        return ''
    a, b = count_columns(text, 'objects')
    if b is not None:
        for x in tr[:i]:
            if x[0] == 'dec' and x[1][0] == 'isnone' and x[2] is True:
                q = row_of(x[1][1])
                if q is not None and col_name(q[0], q[1], tr) == b:
                    return ''
            if x[0] == 'dec' and x[1][0] == 'true' and x[2] is False:
                q = row_of(x[1][1])
                if q is not None and col_name(q[0], q[1], tr) == b:
                    return ''
        return 'objects that are in use are deleted'
    return 'objects are deleted that may be in use (%s)' % text[:60]


# what has to happen with a row found by a query for this missing reference
MOVED = {('contents', 'parent_inode'), ('contents', 'name_id')}


def recovery(ctx, fi, eng, outs):
    for o in outs:
        if o.kind != 'return':
            continue
        tr = o.st.auto
        for e in tr:
            if e[0] != 'iter':
                continue
            r = row_of(('item', ('elem', e[1], 0), ('const', 0, 'int')))
            if r is None:
                continue
            text = effective(r[0], tr)
            ref = missing_reference(text)
            free = [x for x in tr if x[0] == 'help' and x[1] == 'resolve_free']
            if ref is not None and ref[0] in MOVED:
                ctx.ok('recovered', fi.short)
                if not any(x[0] == 'sql' and x[1].table == 'contents' and x[1].kind == 'update' and from_free(row_val(x, 'parent_inode'), free)
                           for x in tr):
                    kviol(ctx, 'recovered', fi, eng, o, 'an entry that lost its %s is not moved to the recovery directory' % (
                        'name' if ref[0][1] == 'name_id' else 'directory'), ref[0][1])
            # files no entry refers to
            a, b = count_columns(text, 'inodes')
            if b is not None and 'inodes' in parse(text).tables:
                none = [x for x in tr if x[0] == 'dec' and x[1][0] == 'isnone' and x[2] is True and row_of(x[1][1]) and
                        col_name(*row_of(x[1][1]), tr) == b]
                if none:
                    ctx.ok('recovered', fi.short + ' lost files')
                    if not any(x[0] == 'sql' and x[1].table == 'contents' and x[1].kind == 'insert' and
                               from_free(row_val(x, 'parent_inode'), free) for x in tr) and not special(o):
                        kviol(ctx, 'recovered', fi, eng, o, 'a file no entry refers to does not get an entry in the recovery directory', 'lost')
            # files that lost blocks
            if ref is not None and ref[0] == ('inode_blocks', 'obj_id'):
                ent = [x for x in tr if x[0] == 'iter' and (row_of(('item', ('elem', x[1], 0), ('const', 0, 'int'))) or (parse(''),))[0].tables
                       & {'contents', 'contents_v'}]
                for x in ent[:1]:
                    ctx.ok('recovered', fi.short + ' incomplete files')
                    if not any(y[0] == 'sql' and y[1].table == 'contents' and y[1].kind == 'update' and
                               from_free(row_val(y, 'parent_inode'), free) for y in tr):
                        kviol(ctx, 'recovered', fi, eng, o, 'a file that lost data is not moved to the recovery directory', 'incomplete')


def from_free(t, free):
    return t is not None and any(u == f[4] or u == ('item', f[4], ('const', 0, 'int')) for f in free for u in subterms(t))


def free_name(ctx, rule='free-name'):
    lengths = []
    fi = ctx.repo.cls(CLS).methods.get('resolve_free')
    if fi is None:
        ctx.violate('free-name', CLS, 'resolve_free is missing')
        return

    class P(FsckPolicy):
        opaque = frozenset({'s3ql.fsck.to_str', CLS + '.log_error'})
        while_iters = 3

    class M(FsckMonitor):
        def label(self, ev, st, eng):
            if ev.kind in ('ret', 'fault'):
                sq = sql_of(ev, eng) if ev.kind == 'ret' else None
                if sq is not None:
                    return ('found', parse(norm(sq.stmt.text)), tuple(sq.params or ()), ev.res)
            if ev.kind == 'call':
                sq = sql_of(ev, eng)
                if sq is not None:
                    return ('query', parse(norm(sq.stmt.text)), tuple(sq.params or ()))
            return None

        def branch(self, auto, atom, val, st, eng):
            return auto + (('dec', atom, val),) if mention_any(atom) else auto
    eng, outs = ctx.run(fi, P(), M())
    for o in outs:
        if o.kind != 'return' or o.val is None:
            continue
        if rule == 'length':
            if o.val[0] == 'tuple' and len(o.val) == 3:
                m = max_len(o.val[2], o.st.facts)
                lengths.append(m)
                if m is not None and m > MAX_NAME:
                    kviol(ctx, rule, fi, eng, o, 'the name that is used may have more than %d bytes' % MAX_NAME, 'length')
                elif m is not None:
                    ctx.ok(rule, fi.short)
            continue
        ctx.ok('free-name', fi.short)
        q = [e for e in o.st.auto if e[0] == 'query']
        if not q:
            kviol(ctx, 'free-name', fi, eng, o, 'a name is used without looking whether it is in use', 'no query')
            continue
        s, ps = q[-1][1], q[-1][2]
        i = max(j for j, e in enumerate(o.st.auto) if e is q[-1])
        found = [e for e in o.st.auto[i + 1:] if e[0] == 'found']
        empty = [e for e in o.st.auto[i + 1:] if e[0] == 'dec' and e[2] is False and mention_any(e[1])]
        if found and not empty:
            kviol(ctx, 'free-name', fi, eng, o, 'a name is used although an entry with this name was found', 'in use')
        val = o.val
        if val[0] == 'tuple' and len(val) == 3:
            name = s.where_eq('name')
            par = s.where_eq('parent_inode')
            n = ps[name[1]] if isinstance(name, tuple) and name[0] == '?' and name[1] < len(ps) else None
            p = ps[par[1]] if isinstance(par, tuple) and par[0] == '?' and par[1] < len(ps) else None
            if n != val[2] or p != val[1]:
                kviol(ctx, 'free-name', fi, eng, o, 'the name that is used is not the one that was looked up', 'other name')


MAX_NAME = 255


def max_len(t, facts):
    '''Upper bound for the length of a byte string: a number, inf if nothing is known about an argument, None if the term is not understood.'''
    if is_const(t):
        if isinstance(t[1], (bytes, str)):
            return max(3, len(t[1])) if t[1].isdigit() else len(t[1])    # digits: a counter
        return 3 if isinstance(t[1], int) else None
    best = None
    for a, v in facts.items():
        if a[0] == 'lt' and any(is_const(x) and isinstance(x[1], int) for x in a[1:]):
            if is_len(a[2], t) and is_const(a[1]) and v is False:
                b = a[1][1]
            elif is_len(a[1], t) and is_const(a[2]) and v is True:
                b = a[2][1] - 1
            else:
                continue
            best = b if best is None else min(best, b)
    if best is not None:
        return best
    if t[0] == 'param':
        return float('inf')
    if t[0] == 'pure' and t[1] == 'Add':
        return total(max_len(x, facts) for x in t[2])
    if t[0] == 'pure' and t[1] == 'slice':
        lo, hi = t[2][1], t[2][2]
        lo = lo[1] if is_const(lo) else None
        hi = hi[1] if is_const(hi) else None
        if isinstance(hi, int) and hi >= 0 and (lo is None or isinstance(lo, int) and lo >= 0):
            return max(0, hi - (lo or 0))
        if isinstance(lo, int) and lo < 0 and hi is None:
            return -lo
        return max_len(t[2][0], facts)
    if t[0] == 'fmt' and len(t) > 2:
        text = t[1] if isinstance(t[1], str) else t[1].decode('latin1')
        return total([len(text.replace('{}', ''))] + [max_len(x, facts) for x in t[2]])
    if t[0] == 'res':
        n = t[1].rpartition('.')[2]
        if n == 'join' and len(t[3]) == 2 and t[3][1][0] == 'tuple':
            return total([max_len(t[3][0], facts)] + [max_len(x, facts) for x in t[3][1][1:]])
        if n in ('encode', 'bytes') and t[3]:
            return max_len(t[3][0], facts)
    if t[0] == 'pure' and t[1] == 'str' or t[0] == 'res' and t[1].rpartition('.')[2] in ('str', 'repr'):
        return 3        # a counter
    return None


def is_len(t, of):
    return t[0] in ('pure', 'res') and t[1].rpartition('.')[2] == 'len' and of in (t[2] if t[0] == 'pure' else t[3])


def total(xs):
    r = 0
    for x in xs:
        if x is None:
            return None
        r += x
    return r


def mention_any(a):
    return a[0] in ('true', 'isnone') and any(u[0] == 'res' and 'Connection' in u[1] for u in subterms(a[1]))


# -------------------------------------------------------------------------------------------
# K04


def text_kind(t):
    '''bytes, str or None (unknown) for a term.'''
    if is_const(t):
        return 'bytes' if isinstance(t[1], bytes) else 'str' if isinstance(t[1], str) else None
    if t[0] == 'fmt':
        return 'bytes' if isinstance(t[1], bytes) or len(t) > 3 and t[3] == 'bytes' else 'str'
    if t[0] == 'pure' and t[1] in ('Add', 'slice'):
        ks = {text_kind(x) for x in t[2][:2 if t[1] == 'Add' else 1]} - {None}
        return ks.pop() if len(ks) == 1 else 'str' if ks else None
    if t[0] == 'pure' and t[1] == 'str':
        return 'str'
    if t[0] == 'res':
        n = t[1].rpartition('.')[2]
        if n in ('encode', 'fsencode', 'get_bytes_val', 'bytes', 'path2bytes'):
            return 'bytes'
        if n in ('decode', 'fsdecode', 'to_str', 'get_str_val', 'repr'):
            return 'str'
        if n in ('basename', 'join', 'dirname', 'strip', 'lower'):
            for a in t[3]:
                k = text_kind(a)
                if k:
                    return k
    if t[0] == 'item' and t[1][0] == 'res' and t[1][1].endswith('resolve_free') and t[2] == ('const', 1, 'int'):
        return 'bytes'
    return None


def typed_col(t):
    '''Kind of a column of a typed row, from the types passed to the query.'''
    k = t[2][1] if t[0] == 'item' and is_const(t[2]) and isinstance(t[2][1], int) else None
    u = t[1] if k is not None else t
    if u[0] == 'elem':
        u = u[1]
    if k is None or u[0] != 'res':
        return None
    for a in u[3]:
        if a[0] == 'tuple' and k + 1 < len(a) and a[k + 1][0] == 'global':
            n = a[k + 1][1].rpartition('.')[2]
            return n if n in ('bytes', 'str') else None
    return None


class RawPolicy(FsckPolicy):
    '''Helpers that create names and files are analysed where they are called.'''

    def inline(self, fi, eng):
        return super().inline(fi, eng)


@check('K04', explanation='''Path analysis of every repair: the kind (bytes or text) of each name written is inferred from the term, the
references to names a path takes and gives up are balanced against the rows it writes, created files fill every required column and
get exactly the entries their link count says, rows are addressed by the number that was read for them, and everything created in the
database for the duration of the check is temporary or dropped on every way out.''')
def k04(ctx):
    ctx.rule('bytes', 'names are written as bytes')
    ctx.rule('name-counts', 'each reference to a name in a new or changed row is counted, each given up is released')
    ctx.rule('helpers', 'the helpers for names keep count and row in step')
    ctx.rule('length', 'a name made up by the checker has at most 255 bytes')
    ctx.rule('columns', 'rows created by the checker fill every column that must have a value')
    ctx.rule('links', 'the link count of a file the checker creates or re-attaches matches its entries')
    ctx.rule('row-number', 'rows are changed by the number that was read for them')
    ctx.rule('temporary', 'working tables and indices do not outlive the check')
    tables = schema.tables(ctx.repo)
    for fi, eng, outs in run_methods(ctx):
        for o in outs:
            if o.kind != 'return':
                continue
            tr = o.st.auto
            names(ctx, fi, eng, o, tr)
            rows(ctx, fi, eng, o, tr, tables)
            created(ctx, fi, eng, o, tr, tables)
            temp(ctx, fi, eng, o, tr, tables)
    helpers(ctx)
    free_name(ctx, 'length')
    indices(ctx, tables)
    for r, n in (('bytes', 5), ('name-counts', 5), ('helpers', 3), ('columns', 3), ('links', 2), ('row-number', 3), ('temporary', 6)):
        ctx.floor(r, n)


def names(ctx, fi, eng, o, tr):
    adds, used, dels = [], [], []
    for e in tr:
        if e[0] == 'help' and e[1] == '_add_name':
            ctx.ok('bytes', fi.short)
            a = e[2][-1] if e[2] else dict(e[3]).get('name')
            if a is not None and (text_kind(a) == 'str' or typed_col(a) == 'str'):
                kviol(ctx, 'bytes', fi, eng, o, 'the name %s is text' % show(a)[:60], 'str name')
            adds.append(e[4])
        elif e[0] == 'help' and e[1] == '_del_name':
            dels.append(e[2][-1] if e[2] else dict(e[3]).get('name_id'))
        elif e[0] == 'sql' and e[1].table == 'names' and e[1].kind in ('insert', 'replace'):
            ctx.ok('bytes', fi.short)
            a = row_val(e, 'name')
            if a is not None and (text_kind(a) == 'str' or typed_col(a) == 'str'):
                kviol(ctx, 'bytes', fi, eng, o, 'the name %s is text' % show(a)[:60], 'str name')
            adds.append(e[3])
        elif e[0] == 'sql' and e[1].table in ('contents', 'ext_attributes') and e[1].kind in MOD:
            if from_empty(e, tr):
                continue
            if e[1].kind in ('insert', 'update', 'replace') and 'name_id' in e[1].cols:
                v = row_val(e, 'name_id')
                used.append((v, e))
            elif e[1].kind == 'delete':
                used.append((None, e))
    left = list(adds)
    rel = list(dels)
    for v, e in used:
        ctx.ok('name-counts', fi.short)
        if v is not None:
            if v in left:
                left.remove(v)
            else:
                kviol(ctx, 'name-counts', fi, eng, o, 'a row of %s refers to a name without counting the reference' % e[1].table, 'uncounted')
        if e[1].kind == 'insert':
            continue
        old = old_name(e, tr)
        if old is None or old == 'missing':
            continue
        if old == 'same' or old in rel:
            if old in rel:
                rel.remove(old)
            continue
        if any(old == d for d in dels):
            continue
        kviol(ctx, 'name-counts', fi, eng, o, 'a row of %s gives up its name without releasing it' % e[1].table, 'not released')
    for v in list(left):
        if v in rel:
            rel.remove(v)
            left.remove(v)
    if left:
        kviol(ctx, 'name-counts', fi, eng, o, 'a reference to a name is counted but no row refers to it', 'leaked')
    for d in rel:
        if not any(is_col(d, tr, 'name_id') for _ in (0,)) or not used:
            # rows deleted later through a list that this path did not go through
            if any(e[0] == 'append' for e in tr):
                continue
            kviol(ctx, 'name-counts', fi, eng, o, 'a reference to a name is released although the row keeps it', 'released')


def is_col(t, tr, name):
    r = row_of(t) if t is not None else None
    return r is not None and (col_name(r[0], r[1], tr) or '').rpartition('.')[2] == name


def old_name(e, tr):
    '''Term for the name id the changed row had, 'missing' if it was selected because that name does not exist, None if unknown.'''
    s = e[1]
    w = s.where_eq('name_id')
    if isinstance(w, tuple) and w[0] == '?' and w[1] < len(e[2]):
        return e[2][w[1]]
    p = where_param(e, 'rowid')
    if p is None:
        return None
    src = [x[2] for x in tr if x[0] == 'append' and p[0] == 'elem' and x[1] == p[1]] or [resolve(p, tr)]
    r = row_of(src[-1])
    if r is None:
        return None
    ref = missing_reference(effective(r[0], tr))
    if ref is not None and ref[1][0] == 'names':
        return 'missing'
    base = src[-1]
    if base[0] != 'item':
        return None
    for k in range(len(r[0].select)):
        if (col_name(r[0], k, tr) or '').rpartition('.')[2] == 'name_id':
            return ('item', base[1], ('const', k, 'int'))
    return None


def rows(ctx, fi, eng, o, tr, tables):
    for e in tr:
        if e[0] != 'sql' or e[1].table not in tables or from_empty(e, tr):
            continue
        s = e[1]
        if s.kind in ('update', 'delete'):
            for c in ('rowid', 'id'):
                p = where_param(e, c)
                if p is None:
                    continue
                for t in [x[2] for x in tr if x[0] == 'append' and p[0] == 'elem' and x[1] == p[1]] or [resolve(p, tr)]:
                    r = row_of(t)
                    ctx.ok('row-number', fi.short)
                    if r is None:
                        if any(u[0] == 'elem' and u[1][0] in ('res', 'pure') and u[1][1] == 'itertools.count' for u in subterms(t)):
                            kviol(ctx, 'row-number', fi, eng, o, 'a row of %s is changed by the value of a counter' % s.table, s.table + ' counter')
                        continue
                    n = col_name(r[0], r[1], tr)
                    if n is None:
                        continue
                    b = n.rpartition('.')[2]
                    ok = {'rowid': ('rowid',), 'id': ('id', s.table[:-1] if s.table != 'inodes' else 'inode', 'name_id', 'obj_id')}[c]
                    if b not in ok and not (c == 'id' and b in ('rowid',)):
                        kviol(ctx, 'row-number', fi, eng, o, 'a row of %s is changed by the column %s of the row found' % (s.table, n),
                              '%s %s' % (s.table, n))
                    elif c == 'rowid' and '.' in n and n.rpartition('.')[0] != s.table:
                        kviol(ctx, 'row-number', fi, eng, o, 'a row of %s is changed by the row number of %s' % (s.table, n.rpartition('.')[0]),
                              '%s %s' % (s.table, n))
        if s.kind in ('insert', 'replace') and not s.subselect:
            ctx.ok('columns', '%s: %s' % (fi.short, s.table))
            columns(ctx, fi, eng, o, e, tables)


def required(t):
    return {c for c, d in t.cols.items() if re.search(r'\bnot\s+null\b', d, re.I) and not re.search(r'\bdefault\b|\bprimary\s+key\b', d, re.I)}


def columns(ctx, fi, eng, o, e, tables):
    for c in sorted(required(tables[e[1].table])):
        if c not in e[1].cols:
            kviol(ctx, 'columns', fi, eng, o, 'a row of %s is created without %s' % (e[1].table, c), '%s.%s' % (e[1].table, c))
        elif row_val(e, c) == NONE:
            kviol(ctx, 'columns', fi, eng, o, 'a row of %s is created with NULL as %s' % (e[1].table, c), '%s.%s' % (e[1].table, c))


def mode_bits(t):
    '''Value of a mode made up of constants, None if it is not.'''
    if is_const(t):
        return cval(t) if isinstance(cval(t), int) else None
    if t[0] == 'global' and t[1].startswith('stat.S_I'):
        return getattr(stat, t[1][5:], None)
    if t[0] == 'pure' and t[1] in ('BitOr', 'Add') and len(t[2]) == 2:
        a, b = mode_bits(t[2][0]), mode_bits(t[2][1])
        return None if a is None or b is None else a | b
    return None


def created(ctx, fi, eng, o, tr, tables):
    ci = ctx.repo.cls(CLS).methods.get('create_inode')
    for i, e in enumerate(tr):
        if e[0] == 'help' and e[1] == 'create_inode':
            kw = dict(e[3])
            ctx.ok('columns', fi.short + ' create_inode')
            pos = [a.arg for a in ci.node.args.args][1:] if ci else []
            args = dict(zip(pos, e[2][-len(pos):] if len(e[2]) <= len(pos) else e[2][1:]))
            args.update(kw)
            bits = mode_bits(args['mode']) if 'mode' in args else None
            if bits is not None and not (stat.S_ISDIR(bits) if fi.name == 'check_lof' else stat.S_IFMT(bits)):
                kviol(ctx, 'columns', fi, eng, o, 'the recovery directory is created with a mode that is not that of a directory'
                      if fi.name == 'check_lof' else 'a file is created without a type', 'create_inode type')
            dflt = {}
            if ci:
                ds = ci.node.args.defaults
                for a, d in zip(ci.node.args.args[len(ci.node.args.args) - len(ds):], ds):
                    dflt[a.arg] = d
            for c in sorted(required(tables['inodes'])):
                if c in args and args[c] != NONE or c not in args and c in dflt and getattr(dflt[c], 'value', 0) is not None:
                    continue
                if c in pos:
                    kviol(ctx, 'columns', fi, eng, o, 'a file is created without %s' % c, 'create_inode ' + c)
            links = sum(1 for x in tr if x[0] == 'sql' and x[1].table == 'contents' and x[1].kind in ('insert', 'update') and
                        row_val(x, 'inode') == e[4])
            ctx.ok('links', fi.short)
            rc = args.get('refcount')
            if rc is not None and is_const(rc) and cval(rc) != links:
                kviol(ctx, 'links', fi, eng, o, 'a file with link count %r gets %d entries' % (cval(rc), links), 'create_inode')
        if e[0] == 'sql' and e[1].table == 'contents' and e[1].kind == 'insert':
            ino = row_val(e, 'inode')
            if any(x[0] == 'help' and x[1] == 'create_inode' and x[4] == ino for x in tr) or ino is None:
                continue
            ctx.ok('links', fi.short)
            n = sum(1 for x in tr if x[0] == 'sql' and x[1].table == 'contents' and x[1].kind == 'insert' and row_val(x, 'inode') == ino)
            up = [x for x in tr if x[0] == 'sql' and x[1].table == 'inodes' and x[1].kind == 'update' and 'refcount' in x[1].cols and
                  where_param(x, 'id') == ino]
            if not up:
                kviol(ctx, 'links', fi, eng, o, 'a file gets an entry without updating its link count', 'insert')
            elif not (row_val(up[-1], 'refcount') == ('const', n, 'int') or delta(up[-1]) == n):
                kviol(ctx, 'links', fi, eng, o, 'a file that gets %d entry is recorded with link count %s' % (
                    n, show(row_val(up[-1], 'refcount'))[:40]), 'insert')


def temp(ctx, fi, eng, o, tr, tables):
    live = {}
    for e in tr:
        if e[0] != 'sql' or e[1].kind not in ('create', 'drop'):
            continue
        s = e[1]
        what = getattr(s, 'what', '')
        if s.kind == 'create':
            ctx.ok('temporary', fi.short)
            tmp = bool(re.match(r'create\s+temp(orary)?\b', s.text, re.I)) or str(s.table).startswith('temp.') or (
                what == 'index' and on_temp(s.text, live))
            live[s.table] = (what, tmp, s)
        elif s.table in live:
            del live[s.table]
    for n, (what, tmp, s) in live.items():
        if what == 'index' and tmp:
            continue
        kviol(ctx, 'temporary', fi, eng, o, 'the working %s %s is not dropped' % (what, n), 'left ' + str(n))
    for e in tr:
        if e[0] == 'sql' and e[1].kind == 'create' and getattr(e[1], 'what', '') == 'table' and not re.match(
                r'create\s+temp(orary)?\b', e[1].text, re.I):
            kviol(ctx, 'temporary', fi, eng, o, 'the working table %s is created in the metadata' % e[1].table, 'permanent ' + str(e[1].table))


def on_temp(text, live):
    m = re.search(r'\bon\s+(\w+)', text, re.I)
    return bool(m and m.group(1).lower() in live and live[m.group(1).lower()][1])


def helpers(ctx):
    '''_add_name and _del_name.'''
    methods = ctx.repo.cls(CLS).methods

    class P(FsckPolicy):
        opaque = frozenset({'s3ql.fsck.to_str', CLS + '.log_error'})

    for n in ('_add_name', '_del_name'):
        fi = methods.get(n)
        if fi is None:
            continue
        eng, outs = ctx.run(fi, P(), CacheMonitor())
        for o in outs:
            if o.kind != 'return':
                continue
            ctx.ok('helpers', fi.short)
            tr = o.st.auto
            ins = [e for e in tr if e[0] == 'sql' and e[1].table == 'names' and e[1].kind in ('insert', 'replace')]
            upd = [e for e in tr if e[0] == 'sql' and e[1].table == 'names' and e[1].kind == 'update']
            de = [e for e in tr if e[0] == 'sql' and e[1].table == 'names' and e[1].kind == 'delete']
            if n == '_add_name':
                name = next((('param', a.arg, fi.qual) for a in fi.node.args.args[1:2]), None)
                good = len(ins) == 1 and not upd and row_val(ins[0], 'refcount') == ('const', 1, 'int') and ins[0][3] == o.val and \
                    row_val(ins[0], 'name') is not None and any(u[0] == 'param' for u in subterms(row_val(ins[0], 'name'))) and \
                    text_kind(row_val(ins[0], 'name')) != 'str'
                good = good or not ins and len(upd) == 1 and delta(upd[0]) == 1 and where_param(upd[0], 'id') == o.val
                if not good:
                    kviol(ctx, 'helpers', fi, eng, o, 'the returned name is not counted exactly once', 'add')
                for e in ins + [x for x in tr if x[0] == 'sql' and x[1].kind == 'select' and x[1].table == 'names']:
                    if name is not None and not any(u[0] == 'param' for p in e[2] for u in subterms(p)):
                        kviol(ctx, 'helpers', fi, eng, o, 'another name is looked up or stored', 'other')
            else:
                if len(upd) + sum(1 for d in de if not zero_only(d)) != 1 or upd and delta(upd[0]) != -1:
                    kviol(ctx, 'helpers', fi, eng, o, 'the reference to the name is not released exactly once', 'release')
                for d in de:
                    if upd and tr.index(d) < tr.index(upd[0]):
                        kviol(ctx, 'helpers', fi, eng, o, 'unused names are removed before the count is decreased', 'order')
                    if not zero_only(d) or where_param(d, 'id') is None:
                        kviol(ctx, 'helpers', fi, eng, o, 'a name is removed that is still used', 'used')
    ci = methods.get('create_inode')
    if ci is not None:
        tables = schema.tables(ctx.repo)
        eng, outs = ctx.run(ci, P(), CacheMonitor())
        for o in outs:
            for e in o.st.auto:
                if e[0] == 'sql' and e[1].kind == 'insert' and e[1].table == 'inodes':
                    ctx.ok('columns', ci.short)
                    columns(ctx, ci, eng, o, e, tables)
                    for c, v in e[1].cols.items():
                        t = row_val(e, c)
                        if t is not None and t[0] == 'param' and t[1] != c:
                            kviol(ctx, 'columns', ci, eng, o, 'the column %s gets the value of %s' % (c, t[1]), 'create_inode ' + c)


def zero_only(e):
    try:
        t = where_tokens(e[1].text)
    except Undecided:
        return False
    eq = [c for c in e[1].where if len(c) == 3 and c[0] == 'refcount' and c[1] in ('=', '==', '<=') and c[2] == ('num', 0)]
    return bool(t) and bool(eq)


class IdxMonitor(Monitor):
    def init(self):
        return frozenset()

    def step(self, auto, ev, st, eng):
        if ev.kind != 'ret' and not (ev.kind == 'call' and is_drop(ev)):
            return auto
        sq = sql_of(ev, eng)
        if sq is None:
            return auto
        s = sq.stmt
        if s.kind == 'create' and ev.kind == 'ret' and not re.match(r'create\s+temp', s.text, re.I) and s.table:
            return auto | {s.table}
        if s.kind == 'drop':
            n = s.table
            return frozenset(x for x in auto if x != n) if isinstance(n, str) else frozenset()
        return auto


def is_drop(ev):
    return any(is_const(a) and isinstance(a[1], str) and re.match(r'\s*drop\b', a[1], re.I) or
               a[0] == 'fmt' and isinstance(a[1], str) and re.match(r'\s*drop\b', a[1], re.I) for a in ev.args)


def indices(ctx, tables):
    '''Indices on permanent tables are dropped however check() ends.'''
    fi = ctx.repo.func(CLS + '.check')

    class P(FsckPolicy):
        loop_iters = 6

        def inline(self, f, eng):
            return not f.name.startswith('check_') and super().inline(f, eng)

        def raises(self, ev, eng):
            if ev.name.startswith('check_') and ev.kind == 'call':
                return ('any',)
            return ()

    eng, outs = ctx.run(fi, P(), IdxMonitor())
    for o in outs:
        ctx.ok('temporary', fi.short)
        if o.st.auto:
            kviol(ctx, 'temporary', fi, eng, o, 'the working index %s is left behind when a check %s' % (
                ', '.join(sorted(map(str, o.st.auto))), 'fails' if o.kind == 'raise' else 'is complete'), 'index')

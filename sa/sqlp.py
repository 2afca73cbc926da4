'''Small SQL reader: statement kind, tables, assigned columns, WHERE conjuncts, parameter numbers.'''

from __future__ import annotations

import functools
import re

from .interp import const, is_const, show

TOK = re.compile(
    r"""\s*(?:--[^\n]*)?\s*(?:
        (?P<str>'(?:[^']|'')*') | (?P<num>\d+(?:\.\d+)?) | (?P<id>[A-Za-z_][\w]*(?:\.[A-Za-z_]\w*)?) |
        (?P<qid>"[^"]+") | (?P<hole>\{[^}]*\}) | (?P<op>\|\||<=|>=|<>|!=|==|[-+*/%<>=(),;?.]) )""",
    re.X,
)

KW = {
    'select', 'from', 'where', 'insert', 'into', 'values', 'update', 'set', 'delete', 'or', 'replace', 'ignore',
    'and', 'order', 'by', 'limit', 'join', 'on', 'left', 'outer', 'inner', 'group', 'having', 'create', 'drop',
    'table', 'index', 'unique', 'temporary', 'temp', 'if', 'not', 'exists', 'as', 'is', 'null', 'in', 'union',
    'all', 'distinct', 'using', 'natural', 'cross', 'view', 'pragma', 'begin', 'commit', 'rollback', 'attach',
    'analyze', 'vacuum', 'reindex', 'alter', 'desc', 'asc', 'except', 'intersect', 'returning', 'offset',
}


class Stmt:
    def __init__(self, text):
        self.text = ' '.join(text.split())
        self.kind = ''
        self.table = None
        self.tables = set()  # every table mentioned
        self.or_ = None  # OR REPLACE / OR IGNORE
        self.cols = {}  # assigned column -> list of tokens
        self.where = []  # conjuncts: token lists
        self.select = []  # selected expressions: token lists
        self.tail = []  # ORDER BY... tokens
        self.subselect = False
        self.nparams = 0
        self.ok = True

    def where_eq(self, col):
        '''Parameter number / literal compared for equality with *col* in WHERE, or None.'''
        for c in self.where:
            if len(c) == 3 and c[1] in ('=', '==', 'is'):
                a, b = c[0], c[2]
                if isinstance(a, str) and base(a) == col:
                    return b
                if isinstance(b, str) and base(b) == col:
                    return a
        return None

    def where_has(self, col, op):
        for c in self.where:
            if len(c) >= 3 and isinstance(c[0], str) and base(c[0]) == col and c[1] == op:
                return c[2:]
        return None

    def writes(self):
        return self.kind in ('insert', 'update', 'delete', 'replace', 'create', 'drop', 'alter')

    def __repr__(self):
        return '<sql %s>' % self.text[:80]


def base(tok):
    return tok.rpartition('.')[2].lower() if isinstance(tok, str) else tok


def tokenize(text):
    out = []
    pos = 0
    n = 0
    text = text.strip()
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            if text[pos:].strip() == '':
                break
            return None
        pos = m.end()
        if m.group('str') is not None:
            out.append(('str', m.group('str')[1:-1]))
        elif m.group('num') is not None:
            s = m.group('num')
            out.append(('num', float(s) if '.' in s else int(s)))
        elif m.group('id') is not None:
            w = m.group('id')
            out.append(w.lower() if w.lower() in KW else w)
        elif m.group('qid') is not None:
            out.append(m.group('qid')[1:-1])
        elif m.group('hole') is not None:
            out.append(('hole', m.group('hole')))
        else:
            o = m.group('op')
            if o == '?':
                out.append(('?', n))
                n += 1
            else:
                out.append(o)
        if m.end() == m.start():
            return None
    return out, n


@functools.lru_cache(maxsize=None)
def parse(text):
    try:
        return parse_(text)
    except (IndexError, AttributeError, TypeError):
        s = Stmt(text)
        s.ok = False
        return s


def parse_(text):
    s = Stmt(text)
    r = tokenize(text)
    if r is None:
        s.ok = False
        m = re.match(r'\s*(\w+)', text)
        s.kind = m.group(1).lower() if m else ''
        return s
    toks, s.nparams = r
    if toks and toks[-1] == ';':
        toks = toks[:-1]
    if not toks:
        s.ok = False
        return s
    s.kind = str(toks[0]).lower()
    # every table
    for i, t in enumerate(toks):
        if t in ('from', 'into', 'join', 'update', 'table') and i + 1 < len(toks):
            j = i + 1
            while j < len(toks) and toks[j] in ('or', 'replace', 'ignore', 'if', 'not', 'exists'):
                j += 1
            while j < len(toks) and isinstance(toks[j], str) and toks[j] not in KW and toks[j] not in '()':
                s.tables.add(base(toks[j]))
                # comma separated FROM list
                k = j + 1
                if k < len(toks) and isinstance(toks[k], str) and toks[k] not in KW and toks[k] not in '(),=;':
                    k += 1
                if t == 'from' and k < len(toks) and toks[k] == ',':
                    j = k + 1
                    continue
                break
    i = 0
    if s.kind in ('insert', 'replace'):
        i = 1
        if s.kind == 'replace':
            s.or_ = 'replace'
        if toks[i] == 'or':
            s.or_ = toks[i + 1]
            i += 2
        if toks[i] == 'into':
            i += 1
        s.table = base(toks[i])
        i += 1
        names = []
        if i < len(toks) and toks[i] == '(':
            j = match_paren(toks, i)
            names = [base(x) for x in toks[i + 1:j] if x != ',']
            i = j + 1
        if i < len(toks) and toks[i] == 'values':
            j = match_paren(toks, i + 1)
            vals = split_commas(toks[i + 2:j])
            for n, v in zip(names, vals):
                s.cols[n] = v
            s.colnames = names
            s.values = vals
        elif i < len(toks) and toks[i] == 'select':
            s.subselect = True
            s.colnames = names
            parse_select(s, toks[i:])
            for n, v in zip(names, s.select):
                s.cols[n] = v
    elif s.kind == 'update':
        i = 1
        if toks[i] == 'or':
            s.or_ = toks[i + 1]
            i += 2
        s.table = base(toks[i])
        i += 1
        if i < len(toks) and toks[i] == 'set':
            j = find_top(toks, i, {'where'})
            for a in split_commas(toks[i + 1:j]):
                if len(a) >= 3 and a[1] in ('=', '=='):
                    s.cols[base(a[0])] = a[2:]
            if j < len(toks):
                s.where = conjuncts(toks[j + 1:])
    elif s.kind == 'delete':
        i = 2 if toks[1] == 'from' else 1
        s.table = base(toks[i])
        j = find_top(toks, i, {'where'})
        if j < len(toks):
            s.where = conjuncts(toks[j + 1:])
    elif s.kind == 'select':
        parse_select(s, toks)
    elif s.kind in ('create', 'drop'):
        i = 1
        while i < len(toks) and toks[i] in ('temporary', 'temp', 'unique'):
            i += 1
        s.what = toks[i] if i < len(toks) else ''
        i += 1
        while i < len(toks) and toks[i] in ('if', 'not', 'exists'):
            i += 1
        if i < len(toks):
            s.table = base(toks[i]) if isinstance(toks[i], str) else None
        s.body = toks[i + 1:]
    return s


def parse_select(s, toks):
    j = find_top(toks, 1, {'from', 'where', 'order', 'limit', 'group', 'union'})
    sel = toks[1:j]
    if sel and sel[0] == 'distinct':
        sel = sel[1:]
    s.select = split_commas(sel)
    if j < len(toks) and toks[j] == 'from':
        if s.table is None and j + 1 < len(toks) and isinstance(toks[j + 1], str):
            s.table = base(toks[j + 1])
        elif s.kind in ('insert', 'replace') and j + 1 < len(toks):
            s.source = base(toks[j + 1]) if isinstance(toks[j + 1], str) else None
        k = find_top(toks, j, {'where', 'order', 'limit', 'group', 'union'})
        s.frm = toks[j + 1:k]
        j = k
    if j < len(toks) and toks[j] == 'where':
        k = find_top(toks, j + 1, {'order', 'limit', 'group', 'union', 'having'})
        s.where = conjuncts(toks[j + 1:k])
        j = k
    s.tail = toks[j:]


def match_paren(toks, i):
    d = 0
    for j in range(i, len(toks)):
        if toks[j] == '(':
            d += 1
        elif toks[j] == ')':
            d -= 1
            if d == 0:
                return j
    return len(toks)


def find_top(toks, i, words):
    d = 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t == '(':
            d += 1
        elif t == ')':
            d -= 1
        elif d == 0 and isinstance(t, str) and t in words:
            return j
    return len(toks)


def split_commas(toks):
    out, cur, d = [], [], 0
    for t in toks:
        if t == '(':
            d += 1
        elif t == ')':
            d -= 1
        if t == ',' and d == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


def conjuncts(toks):
    out, cur, d = [], [], 0
    for t in toks:
        if t == '(':
            d += 1
        elif t == ')':
            d -= 1
        if t == 'and' and d == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


SQL_NAMES = {
    'execute', 'rowid', 'get_val', 'get_row', 'has_val', 'query', 'get_int_val', 'get_row_typed', 'query_typed',
    'get_inode_val', 'get_inode_val_or_none', 'get_list', 'get_int_val_or_none', 'get_bytes_val_or_none', 'get_bool_val',
    'get_bool_val_or_none', 'query_dirty', 'get_str_val', 'get_bytes_val', 'execute_batched', 'executemany', 'get_val_typed', 'batched_query',
}


class SqlEvent:
    '''SQL statement executed by a call event, with parameters bound to terms.'''

    def __init__(self, stmt, params, ev, raw):
        self.stmt = stmt
        self.params = params
        self.ev = ev
        self.raw = raw

    def val(self, toks):
        '''Term for a single token / token list (parameter, literal) or None.'''
        if toks is None:
            return None
        if isinstance(toks, list):
            if len(toks) == 2 and toks[0] == '-' and isinstance(toks[1], tuple):
                return const(-toks[1][1])
            if len(toks) != 1:
                return ('sqlexpr', ' '.join(tokstr(t) for t in toks))
            toks = toks[0]
        if isinstance(toks, tuple):
            if toks[0] == '?':
                if self.params is not None and toks[1] < len(self.params):
                    return self.params[toks[1]]
                return ('unk', 'param', toks[1])
            return const(toks[1])
        if toks == 'null':
            return const(None)
        return ('sqlexpr', toks)

    def col(self, name):
        return self.val(self.stmt.cols.get(name)) if name in self.stmt.cols else None

    def where(self, name):
        r = self.stmt.where_eq(name)
        return self.val(r) if r is not None else None

    def __repr__(self):
        return '%s %s' % (self.stmt.text[:90], [show(p) for p in self.params or ()])


def tokstr(t):
    if isinstance(t, tuple):
        return '?' if t[0] == '?' else repr(t[1])
    return t


def sql_of(ev, eng=None):
    '''SqlEvent for a call event that runs SQL, else None.'''
    if ev.kind not in ('call', 'ret') or ev.name not in SQL_NAMES:
        return None
    text = None
    rest = ()
    for i, a in enumerate(ev.args):
        if is_const(a) and isinstance(a[1], str):
            text = a[1]
            rest = ev.args[i + 1:]
            break
        if isinstance(a, tuple) and a[0] == 'fmt':
            text = a[1]
            rest = ev.args[i + 1:]
            break
    if text is None:
        for k in ('sql', 'query', 'stmt'):
            a = ev.kw.get(k)
            if a is not None and is_const(a) and isinstance(a[1], str):
                text = a[1]
    if text is None or not re.match(r'\s*[A-Za-z]+', text):
        return None
    params = None
    if 'bindings' in ev.kw:
        rest = (ev.kw['bindings'],)
    if not rest:
        for k in ('args', 'parameters', 'params'):
            if k in ev.kw:
                rest = (ev.kw[k],)
    if rest and isinstance(rest[0], tuple) and rest[0] and rest[0][0] == 'tuple':
        params = list(rest[0][1:])
    elif rest and is_const(rest[0]) and isinstance(rest[0][1], tuple):
        params = [const(x) for x in rest[0][1]]
    elif rest and rest[0][0] == 'obj' and eng is not None:
        params = None
    st = parse(text)
    if params is None and rest and eng is None:
        params = None
    return SqlEvent(st, params, ev, text)

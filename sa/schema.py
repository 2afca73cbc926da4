'''The database schema as declared by the CREATE statements of database.create_tables.'''

from __future__ import annotations

import ast
import re


def statements(repo, func='database.create_tables'):
    fi = repo.func(func)
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.match(r'\s*CREATE\s', n.value, re.I):
            yield fi, n, re.sub(r'--[^\n]*', ' ', n.value)


def split_top(s):
    out, cur, d = [], '', 0
    for ch in s:
        if ch == '(':
            d += 1
        elif ch == ')':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return [' '.join(x.split()) for x in out]


class Table:
    def __init__(self, name, node, fi):
        self.name = name
        self.node = node
        self.fi = fi
        self.cols = {}
        self.constraints = []

    def refs(self, table):
        '''Columns that reference the given table.'''
        out = []
        for c, d in self.cols.items():
            if re.search(r'\breferences\s+%s\b' % table, d, re.I):
                out.append(c)
        return out


def tables(repo):
    '''name -> Table'''
    res = {}
    for fi, n, text in statements(repo):
        m = re.match(r'\s*CREATE\s+(?:TEMP(?:ORARY)?\s+)?TABLE\s+(?:IF\s+NOT\s+EXISTS\s+)?(\w+)\s*\((.*)\)[^)]*$', text, re.I | re.S)
        if not m:
            continue
        t = Table(m.group(1).lower(), n, fi)
        for part in split_top(m.group(2)):
            w = part.split(None, 1)
            if w[0].split('(')[0].upper() in ('PRIMARY', 'UNIQUE', 'FOREIGN', 'CHECK', 'CONSTRAINT'):
                t.constraints.append(part)
            else:
                t.cols[w[0].lower()] = w[1] if len(w) > 1 else ''
        res[t.name] = t
    return res


def views(repo):
    res = {}
    for fi, n, text in statements(repo):
        m = re.match(r'\s*CREATE\s+VIEW\s+(\w+)\s+AS\s+(.*)$', text, re.I | re.S)
        if m:
            res[m.group(1).lower()] = (' '.join(m.group(2).split()), n, fi)
    return res

'''Shared matchers for the rules.'''

from __future__ import annotations

import ast

from .interp import (Event, Engine, Monitor, Policy, const, cval, is_const, mentions, show, short_event, subterms,
                     NO_RAISE_NAMES, NONE, TRUE, FALSE, mk_eq)
from .repo import AnalysisError, ClassInfo, FuncInfo, walk_own
from .sqlp import sql_of, SQL_NAMES


def cls_name(eng, term):
    c = eng.class_of(term) if term is not None else None
    return c.name if c is not None else None


def recv_is(eng, ev, *names):
    '''Does the receiver of a method call have one of the classes (or a subclass)?'''
    c = eng.class_of(ev.recv) if ev.recv is not None else None
    if c is None:
        return False
    return any(x.name in names for x in eng.repo.mro(c))


def recv_attr(ev, *names):
    '''Is the receiver an attribute with one of the names (self.db, backend, ...)?'''
    r = ev.recv
    if not isinstance(r, tuple) or not r:
        return False
    if r[0] == 'attr':
        return r[2] in names
    if r[0] == 'param':
        return r[1] in names
    return False


def attr_val(st, base, name):
    return st.heap.get((base, name), ('attr', base, name))


def truth_attr(st, base, name):
    return st.truth(('true', attr_val(st, base, name)))


def fact_true_any(st, pred):
    '''First fact (atom, value) whose atom satisfies pred.'''
    for a, v in st.facts.items():
        if pred(a):
            return a, v
    return None


def is_attr(t, name):
    return isinstance(t, tuple) and len(t) >= 3 and t[0] == 'attr' and t[2] == name


def last(qual):
    return qual.rpartition('.')[2]


def fmt_is(t, template):
    '''Is the term a string of the given shape?'''
    return isinstance(t, tuple) and t and t[0] == 'fmt' and t[1] == template


DB_EXC = {'get_val', 'get_row', 'get_int_val', 'get_row_typed', 'get_str_val', 'get_bytes_val'}


class StdPolicy(Policy):
    '''Typical failure model: every awaited foreign call and file-system call may fail, database
    row lookups may find nothing, cache/dict lookups may miss; logging and bookkeeping cannot fail.'''

    norow = True
    keyerrors = ('cache',)
    await_raises = True
    os_raises = True
    exempt = frozenset()

    def raises(self, ev, eng):
        n = ev.name
        if n in self.exempt or ev.qual in self.exempt:
            return ()
        if n in DB_EXC and self.norow:
            return ('s3ql.database.NoSuchRowError',)
        if n in SQL_NAMES:
            return ()
        if ev.kind == 'getitem':
            r = ev.recv
            if isinstance(r, tuple) and r[0] == 'attr' and r[2] in self.keyerrors:
                return ('builtins.KeyError',)
            return ()
        if n in NO_RAISE_NAMES:
            return ()
        if self.await_raises and (ev.awaited or ev.thread):
            return ('any',)
        if self.os_raises and (ev.qual.startswith(('os.', 'shutil.')) or ev.qual == 'builtins.open') and not \
                ev.qual.startswith('os.path') and n not in ('getuid', 'getpid', 'fspath', 'fsencode', 'fsdecode', 'cpu_count'):
            return ('builtins.OSError',)
        return ()


def methods_of(repo, clsname, known_only=True):
    from .baseline import known_functions

    ci = repo.cls(clsname)
    for m in ci.methods.values():
        if not known_only or m.qual in known_functions():
            yield m


def callers_of(repo, pred):
    '''(FuncInfo, Call node) for calls whose callee expression satisfies pred(mod, call).'''
    for m in repo.modules.values():
        for fn in all_funcs_in(m):
            for n in walk_own(fn.node):
                if isinstance(n, ast.Call) and pred(m, n):
                    yield fn, n


def all_funcs_in(m):
    yield from m.functions.values()
    for c in m.classes.values():
        yield from c.methods.values()


def lin(t):
    '''Linear form of an integer term: {term: coefficient}, with None for the constant.'''
    if is_const(t) and isinstance(t[1], int):
        return {None: t[1]} if t[1] else {}
    if t[0] == 'pure' and t[1] in ('Add', 'Sub') and len(t[2]) == 2:
        a, b = lin(t[2][0]), lin(t[2][1])
        k = 1 if t[1] == 'Add' else -1
        r = dict(a)
        for x, c in b.items():
            r[x] = r.get(x, 0) + k * c
        return {x: c for x, c in r.items() if c}
    if t[0] == 'pure' and t[1] == 'Mult' and len(t[2]) == 2:
        for x, y in (t[2], t[2][::-1]):
            if is_const(x) and isinstance(x[1], int):
                return {z: c * x[1] for z, c in lin(y).items() if c * x[1]}
    if t[0] == 'pure' and t[1] == 'USub' and len(t[2]) == 1:
        return {z: -c for z, c in lin(t[2][0]).items()}
    return {t: 1}


def lin_diff(a, b):
    '''Constant difference a - b of two integer terms, or None if it is not a known constant.'''
    d = lin(('pure', 'Sub', (a, b)))
    if not d:
        return 0
    if set(d) == {None}:
        return d[None]
    return None


def len_bounds(t):
    '''Terms that bound the length of a bytes term from above.'''
    out = [('pure', 'len', (t,))]
    if is_const(t) and isinstance(t[1], (bytes, str)):
        out.append(const(len(t[1])))
    if t[0] == 'pure' and t[1] == 'slice' and len(t[2]) >= 3:
        b, lo, hi = t[2][:3]
        if hi != NONE:
            out.append(hi if lo in (NONE, const(0)) else ('pure', 'Sub', (hi, lo)))
        elif lo in (NONE, const(0)):
            out += len_bounds(b)
        else:
            out += [('pure', 'Sub', (x, lo)) for x in len_bounds(b)]
    return out

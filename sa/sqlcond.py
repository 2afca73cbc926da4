'''Decides simple SQL conditions by cases: three-valued evaluation of a WHERE clause under an assignment of its columns.'''

from __future__ import annotations

from .sqlp import tokenize

END = {'group', 'order', 'limit', 'having', 'union', 'except', 'intersect', 'returning', 'window'}


class Undecided(Exception):
    pass


def where_tokens(text):
    '''Tokens of the outermost (last at depth 0) WHERE clause, [] if there is none.'''
    r = tokenize(text)
    if r is None:
        raise Undecided(text)
    toks = r[0]
    d = 0
    start = None
    for i, t in enumerate(toks):
        if t == '(':
            d += 1
        elif t == ')':
            d -= 1
        elif t == 'where' and d == 0:
            start = i + 1
    if start is None:
        return []
    out = []
    d = 0
    for t in toks[start:]:
        if t == '(':
            d += 1
        elif t == ')':
            d -= 1
        if d == 0 and isinstance(t, str) and (t in END or t == ';'):
            break
        out.append(t)
    return out


class Ev:
    def __init__(self, toks, env):
        self.t = toks
        self.i = 0
        self.env = env

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def take(self, x):
        if self.low() == x:
            self.i += 1
            return True
        return False

    def low(self, k=0):
        p = self.peek(k)
        return p.lower() if isinstance(p, str) else p

    def or_(self):
        v = self.and_()
        while self.take('or'):
            w = self.and_()
            v = True if v is True or w is True else None if v is None or w is None else False
        return v

    def and_(self):
        v = self.not_()
        while self.take('and'):
            w = self.not_()
            v = False if v is False or w is False else None if v is None or w is None else True
        return v

    def not_(self):
        if self.low() == 'not' and self.low(1) != 'exists':
            self.i += 1
            v = self.not_()
            return None if v is None else not v
        return self.cmp()

    def cmp(self):
        if self.peek() == '(' and self.low(1) != 'select':
            save = self.i
            self.i += 1
            try:
                v = self.or_()
                if self.peek() == ')':
                    self.i += 1
                    n = self.low()
                    if n is None or n in ('and', 'or', ')'):
                        return v
            except Undecided:
                pass
            self.i = save
        a = self.add()
        n = self.low()
        if n in ('=', '==', '!=', '<>', '<', '>', '<=', '>='):
            self.i += 1
            b = self.add()
            if a is None or b is None:
                return None
            return {'=': a == b, '==': a == b, '!=': a != b, '<>': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[n]
        if n == 'is':
            self.i += 1
            neg = self.take('not')
            b = self.add()
            return (a == b) != neg
        if n in ('isnull', 'notnull'):
            self.i += 1
            return (a is None) == (n == 'isnull')
        if n is None or n in ('and', 'or', ')'):
            if isinstance(a, bool):
                return a
            return None if a is None else bool(a)
        raise Undecided(n)

    def add(self):
        v = self.atom()
        while self.peek() in ('+', '-'):
            o = self.peek()
            self.i += 1
            w = self.atom()
            v = None if v is None or w is None else v + w if o == '+' else v - w
        return v

    def atom(self):
        p = self.peek()
        self.i += 1
        if p == '(':
            v = self.add()
            if self.peek() != ')':
                raise Undecided(self.peek())
            self.i += 1
            return v
        if p == '-':
            v = self.atom()
            return None if v is None else -v
        if isinstance(p, tuple):
            if p[0] == 'num':
                return p[1]
            raise Undecided(p)
        if p is None:
            raise Undecided('end')
        l = p.lower()
        if l == 'null':
            return None
        if l in ('coalesce', 'ifnull') and self.peek() == '(':
            self.i += 1
            vals = [self.add()]
            while self.peek() == ',':
                self.i += 1
                vals.append(self.add())
            if self.peek() != ')':
                raise Undecided(self.peek())
            self.i += 1
            return next((v for v in vals if v is not None), None)
        if l in self.env:
            return self.env[l]
        b = l.rpartition('.')[2]
        hits = {k for k in self.env if k.rpartition('.')[2] == b}
        if '.' not in l and len(hits) == 1:
            return self.env[hits.pop()]
        raise Undecided(l)


def evaluate(toks, env):
    '''True, False or None (NULL); raises Undecided for anything outside the fragment.'''
    if not toks:
        return True
    e = Ev(toks, env)
    v = e.or_()
    if e.i != len(toks):
        raise Undecided(e.peek())
    return v

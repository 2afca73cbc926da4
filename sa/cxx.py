'''Small path analysis of C++ functions, on the syntax tree produced by clang.

Functions are explored path by path (loops: body at most once, with the loop variable unknown); nothing is executed. Terms:
('int', n) ('var', name) ('member', base, name) ('bin', op, a, b) ('un', op, a) ('call', name, args) ('mcall', base, name, args)
('new',) ('unk', n). A path is a list of events plus the branch decisions (term, bool) in order.
'''

from __future__ import annotations

import json
import re
import subprocess

from .repo import AnalysisError

SKIP = {'ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXReinterpretCastExpr', 'CXXFunctionalCastExpr',
        'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'CXXConstCastExpr'}
LOOPS = {'ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'}


class Unit:
    def __init__(self, path, text):
        self.path = path
        self.text = text
        self.cache = {}

    def dump(self, name):
        if name in self.cache:
            return self.cache[name]
        try:
            p = subprocess.run(['clang++', '-std=c++17', '-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang',
                                '-ast-dump-filter=' + name, str(self.path)], capture_output=True, text=True, timeout=300)
        except (OSError, subprocess.TimeoutExpired) as exc:
            raise AnalysisError('cannot run clang++: %s' % exc)
        dec = json.JSONDecoder()
        res = {}
        i, s = 0, p.stdout
        while i < len(s):
            while i < len(s) and s[i] in ' \n\r\t':
                i += 1
            if i >= len(s):
                break
            d, i = dec.raw_decode(s, i)
            if d.get('kind') in ('FunctionDecl', 'CXXMethodDecl') and any(c.get('kind') == 'CompoundStmt' for c in d.get('inner', ())):
                res[d['name']] = d
        if not res and p.returncode:
            raise AnalysisError('clang++: %s' % p.stderr[:300])
        self.cache[name] = res
        return res

    def func(self, name):
        f = self.dump(name).get(name)
        if f is None:
            return None
        return f

    def defined(self, name):
        return re.search(r'\b%s\s*\(' % re.escape(name), self.text) is not None

    def all_functions(self):
        '''Names of functions that seem to be defined in this file.'''
        return sorted(set(re.findall(r'\b([A-Za-z_]\w*)\s*\([^;{}()]*(?:\([^()]*\)[^;{}()]*)*\)\s*(?:const\s*)?\{', self.text))
                      - {'if', 'for', 'while', 'switch', 'catch'})


class Path:
    __slots__ = ('env', 'facts', 'events', 'ret', 'done')

    def __init__(self, env=None, facts=(), events=(), ret=None, done=None):
        self.env = env or {}
        self.facts = facts
        self.events = events
        self.ret = ret
        self.done = done

    def copy(self, **kw):
        p = Path(dict(self.env), self.facts, self.events, self.ret, self.done)
        for k, v in kw.items():
            setattr(p, k, v)
        return p

    def holds(self, t, v=True):
        return (t, v) in self.facts


class CxxEngine:
    def __init__(self, unit, opaque=(), depth=4):
        self.unit = unit
        self.opaque = set(opaque)
        self.depth = depth
        self.n = 0
        self.analysed = set()

    def fresh(self, what='unk'):
        self.n += 1
        return ('unk', what, self.n)

    def run(self, name, args=None, depth=None):
        f = self.unit.func(name)
        if f is None:
            raise AnalysisError('no C++ function %s' % name)
        self.analysed.add(name)
        params = [c['name'] for c in f['inner'] if c['kind'] == 'ParmVarDecl' and 'name' in c]
        body = next(c for c in f['inner'] if c['kind'] == 'CompoundStmt')
        env = {p: (args[i] if args and i < len(args) else ('var', p)) for i, p in enumerate(params)}
        outs = self.stmt(body, Path(env), self.depth if depth is None else depth)
        return params, outs

    # -- statements
    def stmts(self, nodes, p, d):
        cur = [p]
        for n in nodes:
            nxt = []
            for q in cur:
                if q.done:
                    nxt.append(q)
                else:
                    nxt.extend(self.stmt(n, q, d))
            cur = nxt
        return cur

    def stmt(self, n, p, d):
        k = n.get('kind')
        if k is None:
            return [p]
        inner = n.get('inner', [])
        if k == 'CompoundStmt':
            return self.stmts(inner, p, d)
        if k == 'DeclStmt':
            return self.stmts(inner, p, d)
        if k == 'VarDecl':
            init = [c for c in inner if c.get('kind') and not c['kind'].endswith(('Attr', 'Comment'))]
            if not init or 'init' not in n:
                p.env[n['name']] = self.fresh(n['name'])
                return [p]
            return [self.bind(q, n['name'], v) for q, v in self.expr(init[-1], p, d)]
        if k == 'ReturnStmt':
            if not inner:
                return [p.copy(done='return')]
            return [q.copy(ret=v, done='return') for q, v in self.expr(inner[0], p, d)]
        if k == 'IfStmt':
            parts = list(inner)
            res = []
            pre = []
            if n.get('hasInit'):
                pre.append(parts.pop(0))
            if n.get('hasVar'):
                pre.append(parts.pop(0))
            for q0 in self.stmts(pre, p, d):
                for q, b in self.cond(parts[0], q0, d):
                    if b:
                        res.extend(self.stmt(parts[1], q, d))
                    elif len(parts) > 2:
                        res.extend(self.stmt(parts[2], q, d))
                    else:
                        res.append(q)
            return res
        if k in LOOPS:
            return self.loop(n, k, inner, p, d)
        if k == 'BreakStmt':
            return [p.copy(done='break')]
        if k == 'ContinueStmt':
            return [p.copy(done='continue')]
        if k in ('NullStmt', 'StaticAssertDecl', 'UsingDecl', 'UsingDirectiveDecl', 'TypedefDecl', 'TypeAliasDecl'):
            return [p]
        if k.endswith('Stmt'):
            raise AnalysisError('unsupported C++ statement %s' % k)
        return [q for q, v in self.expr(n, p, d)]

    def bind(self, p, name, v):
        q = p.copy()
        q.env[name] = v
        return q

    def loop(self, n, k, inner, p, d):
        init = cond = inc = body = None
        if k == 'ForStmt':
            init, _, cond, inc, body = (inner + [{}] * 5)[:5]
        elif k == 'WhileStmt':
            cond, body = inner[-2], inner[-1]
        elif k == 'DoStmt':
            body, cond = inner[0], inner[1]
        else:
            body = inner[-1]
            # the loop variable is an unknown element
            decl = inner[-2]
            res = []
            q = p.copy(events=p.events + (('loop', 'range'),))
            for q2 in self.stmt(decl, q, d) if decl.get('kind') == 'DeclStmt' else [q]:
                res.extend(self.stmt(body, q2, d))
            return [p] + [r.copy(done=None) if r.done in ('break', 'continue') else r for r in res]
        starts = self.stmt(init, p, d) if init and init.get('kind') else [p]
        res = []
        changed = assigned(body) | (assigned(inc) if inc and inc.get('kind') else set()) | assigned(cond or {})
        for s in starts:
            # values before the loop, for rules about where an iteration starts
            first = {v: s.env.get(v) for v in changed}
            g = s.copy()
            for v in changed:
                if v in g.env:
                    g.env[v] = ('iter', v, s.env[v])
            g.events += (('loop', tuple(sorted((v, t) for v, t in first.items() if t is not None))),)
            outs = [(g, True)] if k == 'DoStmt' or not (cond and cond.get('kind')) else self.cond(cond, g, d)
            for q, b in outs:
                if not b:
                    q.events += (('loop-end',),)
                    res.append(q)
                    continue
                for r in self.stmt(body, q, d):
                    if r.done == 'return':
                        res.append(r)
                        continue
                    brk = r.done == 'break'
                    r = r.copy(done=None)
                    if not brk and inc and inc.get('kind'):
                        for r2, _ in self.expr(inc, r, d):
                            r2.events += (('loop-next', final(r2, changed)),)
                            res.append(r2)
                    else:
                        r.events += (('break',) if brk else ('loop-next', final(r, changed)),)
                        res.append(r)
        return res

    # -- conditions
    def cond(self, n, p, d):
        n = strip(n)
        if n['kind'] == 'BinaryOperator' and n['opcode'] in ('&&', '||'):
            is_and = n['opcode'] == '&&'
            res = []
            for q, b in self.cond(n['inner'][0], p, d):
                if b == is_and:
                    res.extend(self.cond(n['inner'][1], q, d))
                else:
                    res.append((q, b))
            return res
        if n['kind'] == 'UnaryOperator' and n['opcode'] == '!':
            return [(q, not b) for q, b in self.cond(n['inner'][0], p, d)]
        res = []
        for q, v in self.expr(n, p, d):
            res.extend(self.assume(v, q))
        return res

    def assume(self, v, p):
        if v[0] == 'un' and v[1] == '!':
            return [(q, not b) for q, b in self.assume(v[2], p)]
        if v[0] == 'int':
            return [(p, v[1] != 0)]
        neg = False
        if v[0] == 'bin' and v[1] in ('==', '!='):
            if v[3] in (('int', 0), ('null',)) or v[2] in (('int', 0), ('null',)):
                other = v[2] if v[3] in (('int', 0), ('null',)) else v[3]
                neg, v = v[1] == '==', other
            elif v[1] == '!=':
                neg, v = True, ('bin', '==', v[2], v[3])
        elif v[0] == 'bin' and v[1] in ('>', '>='):
            # a > b -> b < a; a >= b -> not (a < b)
            neg, v = (False, ('bin', '<', v[3], v[2])) if v[1] == '>' else (True, ('bin', '<', v[2], v[3]))
        elif v[0] == 'bin' and v[1] == '<=':
            neg, v = True, ('bin', '<', v[3], v[2])
        known = [b for t, b in p.facts if t == v]
        if known:
            return [(p, known[-1] != neg)]
        return [(p.copy(facts=p.facts + ((v, True),)), not neg), (p.copy(facts=p.facts + ((v, False),)), neg)]

    # -- expressions
    def exprs(self, nodes, p, d):
        cur = [(p, ())]
        for n in nodes:
            cur = [(q2, vs + (v,)) for q, vs in cur for q2, v in self.expr(n, q, d)]
        return cur

    def expr(self, n, p, d):
        n = strip(n)
        k = n['kind']
        inner = n.get('inner', [])
        if k in ('IntegerLiteral', 'CXXBoolLiteralExpr', 'CharacterLiteral'):
            v = n.get('value')
            return [(p, ('int', int(v)))]
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            return [(p, ('int', 0))]
        if k == 'StringLiteral':
            return [(p, ('str', n.get('value')))]
        if k == 'DeclRefExpr':
            name = n['referencedDecl']['name']
            return [(p, p.env.get(name, ('var', name)))]
        if k == 'CXXThisExpr':
            return [(p, ('var', 'this'))]
        if k == 'MemberExpr':
            return [(q, ('member', b, n['name'])) for q, b in self.expr(inner[0], p, d)] if inner else [(p, ('var', n['name']))]
        if k == 'BinaryOperator' and n['opcode'] == '=':
            return self.assign(inner[0], inner[1], None, p, d)
        if k == 'CompoundAssignOperator':
            return self.assign(inner[0], inner[1], n['opcode'][:-1], p, d)
        if k == 'BinaryOperator' and n['opcode'] in ('&&', '||'):
            return [(q, ('int', int(b))) for q, b in self.cond(n, p, d)]
        if k == 'BinaryOperator' and n['opcode'] == ',':
            return [(q, vs[1]) for q, vs in self.exprs(inner, p, d)]
        if k == 'BinaryOperator':
            return [(q, fold(n['opcode'], a, b)) for q, (a, b) in self.exprs(inner, p, d)]
        if k == 'UnaryOperator':
            op = n['opcode']
            if op in ('++', '--'):
                return self.assign(inner[0], {'kind': 'IntegerLiteral', 'value': '1'}, '+' if op == '++' else '-', p, d,
                                   post=n.get('isPostfix'))
            res = []
            for q, v in self.expr(inner[0], p, d):
                if op == '&' or op == '*' and v[0] == 'un' and v[1] == '&':
                    res.append((q, ('un', '&', v) if op == '&' else v[2]))
                elif op == '-' and v[0] == 'int':
                    res.append((q, ('int', -v[1])))
                else:
                    res.append((q, ('un', op, v)))
            return res
        if k == 'ConditionalOperator':
            res = []
            for q, b in self.cond(inner[0], p, d):
                res.extend(self.expr(inner[1] if b else inner[2], q, d))
            return res
        if k == 'CXXNewExpr':
            return [(p, self.fresh('new'))]
        if k == 'UnaryExprOrTypeTraitExpr':
            return [(p, ('sizeof', json.dumps(n.get('argType', {}).get('qualType', '?'))))]
        if k == 'ArraySubscriptExpr':
            return [(q, ('un', '*', ('bin', '+', a, b))) for q, (a, b) in self.exprs(inner, p, d)]
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            return self.call(n, k, inner, p, d)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr'):
            if len(inner) == 1:
                return self.expr(inner[0], p, d)
            return [(q, ('new',) + vs) for q, vs in self.exprs(inner, p, d)]
        if k == 'CXXDefaultArgExpr':
            return [(p, ('default',))]
        if k == 'LambdaExpr':
            return [(p, self.fresh('lambda'))]
        raise AnalysisError('unsupported C++ expression %s' % k)

    def assign(self, lhs, rhs, op, p, d, post=False):
        lhs = strip(lhs)
        res = []
        for q, (old, v) in self.exprs([lhs, rhs], p, d):
            new = fold(op, old, v) if op else v
            q = q.copy()
            if lhs['kind'] == 'DeclRefExpr' and lhs['referencedDecl']['name'] in q.env:
                q.env[lhs['referencedDecl']['name']] = new
            else:
                q.events += (('assign', old, new),)
                q.facts = tuple((t, b) for t, b in q.facts if not contains(t, old))
            res.append((q, old if post else new))
        return res

    def call(self, n, k, inner, p, d):
        callee = strip(inner[0])
        if k == 'CXXOperatorCallExpr':
            op = callee.get('referencedDecl', {}).get('name', '?')
            res = []
            for q, vs in self.exprs(inner[1:], p, d):
                o = op.replace('operator', '')
                if o in ('==', '!=') and len(vs) == 2:
                    res.append((q, ('bin', o, vs[0], vs[1])))
                elif o == '*' and len(vs) == 1:
                    res.append((q, ('un', '*', vs[0])))
                elif o == '->' and len(vs) == 1:
                    res.append((q, ('un', '*', vs[0])))
                elif o in ('++', '--'):
                    tgt = strip(inner[1])
                    q = q.copy()
                    if tgt['kind'] == 'DeclRefExpr':
                        q.env[tgt['referencedDecl']['name']] = ('next', vs[0])
                    res.append((q, vs[0] if len(vs) > 1 else ('next', vs[0])))
                elif o == '=' and len(vs) == 2:
                    tgt = strip(inner[1])
                    q = q.copy()
                    if tgt['kind'] == 'DeclRefExpr' and tgt['referencedDecl']['name'] in q.env:
                        q.env[tgt['referencedDecl']['name']] = vs[1]
                    else:
                        q.events += (('assign', vs[0], vs[1]),)
                    res.append((q, vs[1]))
                else:
                    res.append((q, ('call', op, vs)))
            return res
        if callee['kind'] == 'MemberExpr':
            res = []
            for q0, base in self.expr(callee['inner'][0], p, d) if callee.get('inner') else [(p, ('var', 'this'))]:
                for q, vs in self.exprs(inner[1:], q0, d):
                    name = callee['name']
                    if name.startswith('operator '):
                        # conversion, e.g. of an atomic
                        name = 'load'
                    self.n += 1
                    pure = name in ('load', 'end', 'begin', 'size', 'empty')
                    v = ('mcall', base, name, vs) if pure else ('mcall', base, name, vs, self.n)
                    q = q.copy(events=q.events + (('mcall', base, name, vs, v, len(q.facts)),))
                    res.append((q, v))
            return res
        name = callee.get('referencedDecl', {}).get('name', '?')
        res = []
        for q, vs in self.exprs(inner[1:], p, d):
            if name not in self.opaque and d > 0 and callee.get('kind') == 'DeclRefExpr' and self.unit.defined(name) \
                    and self.unit.func(name) is not None:
                self.analysed.add(name)
                for o in self.inline(name, vs, q, d):
                    res.append(o)
                continue
            self.n += 1
            v = ('call', name, vs, self.n)
            res.append((q.copy(events=q.events + (('call', name, vs, v, len(q.facts)),)), v))
        return res

    def inline(self, name, vs, q, d):
        f = self.unit.func(name)
        params = [c['name'] for c in f['inner'] if c['kind'] == 'ParmVarDecl' and 'name' in c]
        body = next(c for c in f['inner'] if c['kind'] == 'CompoundStmt')
        sub = Path({p: (vs[i] if i < len(vs) else ('var', p)) for i, p in enumerate(params)}, q.facts, q.events)
        for o in self.stmt(body, sub, d - 1):
            r = q.copy(facts=o.facts, events=o.events)
            yield r, o.ret if o.ret is not None else ('void',)


def final(p, names):
    return tuple(sorted(((n, p.env[n]) for n in names if n in p.env), key=repr))


def strip(n):
    while n.get('kind') in SKIP and n.get('inner'):
        n = n['inner'][-1]
    return n


def fold(op, a, b):
    if a[0] == 'int' and b[0] == 'int' and op in ('+', '-', '*'):
        return ('int', {'+': a[1] + b[1], '-': a[1] - b[1], '*': a[1] * b[1]}[op])
    return ('bin', op, a, b)


def assigned(n):
    res = set()
    if not isinstance(n, dict):
        return res
    k = n.get('kind')
    t = None
    if k == 'CompoundAssignOperator' or k == 'BinaryOperator' and n.get('opcode') == '=' \
            or k == 'UnaryOperator' and n.get('opcode') in ('++', '--'):
        t = strip(n['inner'][0])
    elif k == 'CXXOperatorCallExpr' and len(n.get('inner', ())) > 1:
        op = strip(n['inner'][0]).get('referencedDecl', {}).get('name', '')
        if op in ('operator++', 'operator--', 'operator=', 'operator+='):
            t = strip(n['inner'][1])
    if t is not None and t.get('kind') == 'DeclRefExpr':
        res.add(t['referencedDecl']['name'])
    for c in n.get('inner', ()):
        res |= assigned(c)
    return res


def contains(t, u):
    if t == u:
        return True
    return isinstance(t, tuple) and any(contains(x, u) for x in t if isinstance(x, tuple))


def linear(t):
    '''t as {atom: coefficient}; products and quotients stay atoms.'''
    if t[0] == 'int':
        return {1: t[1]}
    if t[0] == 'bin' and t[1] in '+-' and len(t[1]) == 1:
        r = dict(linear(t[2]))
        for k, v in linear(t[3]).items():
            r[k] = r.get(k, 0) + (v if t[1] == '+' else -v)
        return {k: v for k, v in r.items() if v}
    if t[0] == 'bin' and t[1] == '*':
        a, b = linear(t[2]), linear(t[3])
        for x, y in ((a, b), (b, a)):
            if set(x) <= {1}:
                c = x.get(1, 0)
                return {k: v * c for k, v in y.items() if v * c}
        (a1, b1) = (t[2], t[3])
        return {('mul',) + tuple(sorted((freeze(a), freeze(b)), key=repr)): 1}
    if t[0] == 'bin' and t[1] == '/':
        return {('div', freeze(linear(t[2])), freeze(linear(t[3]))): 1}
    if t[0] == 'bin' and t[1] == '%':
        return {('mod', freeze(linear(t[2])), freeze(linear(t[3]))): 1}
    return {t: 1}


def freeze(d):
    return tuple(sorted(d.items(), key=repr))


def sub(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) - v
    return {k: v for k, v in r.items() if v}

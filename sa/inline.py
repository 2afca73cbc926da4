'''Moves the statements of functions that were introduced after the rules were written back to where they are called.

Works on the syntax tree; calls that do not have a simple form are left alone (the interpreter follows them).
'''

from __future__ import annotations

import ast
import copy

FN = (ast.FunctionDef, ast.AsyncFunctionDef)
LOOPS = (ast.For, ast.AsyncFor, ast.While)


def walk_own(node):
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, FN + (ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


def own_nodes(stmts):
    for s in stmts:
        yield s
        if not isinstance(s, FN + (ast.Lambda, ast.ClassDef)):
            yield from walk_own(s)


def bound_names(stmts):
    r = set()
    for n in own_nodes(stmts):
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
            r.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            r.add(n.name)
        elif isinstance(n, FN + (ast.ClassDef,)):
            r.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            r |= {a.asname or a.name.split('.')[0] for a in n.names}
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            r.add(n.name)
    return r


def all_names(node):
    r = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name):
            r.add(n.id)
        elif isinstance(n, ast.arg):
            r.add(n.arg)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            r.add(n.name)
    return r


class Sub(ast.NodeTransformer):
    '''Renames and replaces names.'''
    def __init__(self, names, exprs):
        self.names = names
        self.exprs = exprs

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.exprs:
            c = copy.deepcopy(self.exprs[n.id])
            for x in ast.walk(c):
                ast.copy_location(x, n)
            return c
        if n.id in self.names:
            n.id = self.names[n.id]
        return n

    def visit_ExceptHandler(self, n):
        if n.name in self.names:
            n.name = self.names[n.name]
        self.generic_visit(n)
        return n


class No(Exception):
    pass


def tail_form(body, depth=0):
    '''The statements with returns in tail position only; raises No if that is not possible.'''
    if depth > 12:
        raise No
    for i, s in enumerate(body):
        if isinstance(s, ast.Return):
            return body[:i + 1]
        if isinstance(s, FN + (ast.ClassDef,)) or not any(isinstance(n, ast.Return) for n in walk_own(s)):
            continue
        rest = body[i + 1:]
        if isinstance(s, ast.If):
            def branch(b):
                if b and leaves(b):
                    return tail_form(b, depth + 1)
                return tail_form(b + copy.deepcopy(rest), depth + 1)
            n = copy.copy(s)
            n.body = branch(s.body) or [ast.copy_location(ast.Pass(), s)]
            n.orelse = branch(s.orelse)
            return body[:i] + [n]
        if isinstance(s, (ast.With, ast.AsyncWith)):
            if rest and not always_returns(s.body):
                raise No
            n = copy.copy(s)
            n.body = tail_form(s.body, depth + 1)
            return body[:i] + [n]
        if isinstance(s, ast.Try):
            if s.finalbody and any(isinstance(x, ast.Return) for x in own_nodes(s.finalbody)):
                raise No
            if rest and not (always_returns(s.body) or s.orelse and always_returns(s.orelse)):
                # the rest follows after the body and after handlers that do not leave
                if any(isinstance(x, ast.Return) for x in own_nodes(s.body)):
                    raise No
                if s.finalbody:
                    raise No
                n = copy.copy(s)
                n.handlers = []
                for h in s.handlers:
                    g = copy.copy(h)
                    if not leaves(h.body):
                        if len(rest) > 12:
                            raise No
                        if any(isinstance(x, ast.Raise) and x.exc is None for x in own_nodes(rest)):
                            raise No
                        # the rest would run inside the handler
                        raise No
                    g.body = tail_form(h.body, depth + 1)
                    n.handlers.append(g)
                n.orelse = tail_form(s.orelse + rest, depth + 1)
                return body[:i] + [n]
            if rest and not all(leaves(h.body) for h in s.handlers):
                raise No
            if s.orelse and any(isinstance(x, ast.Return) for x in own_nodes(s.body)):
                raise No
            n = copy.copy(s)
            n.body = tail_form(s.body, depth + 1)
            n.orelse = tail_form(s.orelse, depth + 1)
            n.handlers = []
            for h in s.handlers:
                g = copy.copy(h)
                g.body = tail_form(h.body, depth + 1)
                n.handlers.append(g)
            return body[:i] + [n]
        if isinstance(s, LOOPS):
            if s.orelse or any(isinstance(x, ast.Break) for x in loop_own(s.body)):
                raise No
            if any(isinstance(x, LOOPS) and any(isinstance(y, ast.Return) for y in walk_own(x)) for x in own_nodes(s.body)):
                raise No
            if any(isinstance(x, ast.Try) and any(isinstance(y, ast.Return) for y in own_nodes(x.finalbody)) for x in own_nodes(s.body)):
                raise No
            n = copy.copy(s)
            n.body = copy.deepcopy(s.body)
            for x in own_nodes(n.body):
                if isinstance(x, ast.Return):
                    x.breaks = True
            n.orelse = tail_form(rest, depth + 1)
            n.had_returns = True
            return body[:i] + [n]
        raise No
    return list(body)


def loop_own(stmts):
    '''Nodes that belong to a loop, not to nested loops.'''
    for s in stmts:
        yield s
        if isinstance(s, LOOPS):
            yield from loop_own(s.orelse)
            continue
        if isinstance(s, FN + (ast.ClassDef,)):
            continue
        for f in ('body', 'orelse', 'finalbody'):
            yield from loop_own(getattr(s, f, None) or [])
        for h in getattr(s, 'handlers', []):
            yield from loop_own(h.body)
        for c in getattr(s, 'cases', []):
            yield from loop_own(c.body)


def leaves(b):
    if not b:
        return False
    s = b[-1]
    if isinstance(s, (ast.Return, ast.Raise)):
        return True
    if isinstance(s, ast.If):
        return bool(s.orelse) and leaves(s.body) and leaves(s.orelse)
    if isinstance(s, (ast.With, ast.AsyncWith)):
        return leaves(s.body)
    return False


always_returns = leaves


def falls(b):
    '''Control can reach the end of these (tail form) statements.'''
    if not b:
        return True
    s = b[-1]
    if isinstance(s, (ast.Return, ast.Raise)):
        return False
    if isinstance(s, ast.If):
        return falls(s.body) or falls(s.orelse)
    if isinstance(s, (ast.With, ast.AsyncWith)):
        return falls(s.body)
    if isinstance(s, ast.Try):
        return falls(s.orelse or s.body) or any(falls(h.body) for h in s.handlers)
    if isinstance(s, LOOPS) and getattr(s, 'had_returns', False):
        return falls(s.orelse)
    return True


def put_result(body, make):
    '''Replaces returns by what make(value) gives; control falls off the end afterwards.'''
    out = []
    for s in body:
        if isinstance(s, ast.Return):
            out.extend(make(s.value, s))
            if getattr(s, 'breaks', False):
                out.append(ast.copy_location(ast.Break(), s))
            continue
        if not isinstance(s, FN + (ast.ClassDef,)):
            for f in ('body', 'orelse', 'finalbody'):
                x = getattr(s, f, None)
                if isinstance(x, list) and x and isinstance(x[0], ast.stmt):
                    setattr(s, f, put_result(x, make) or ([ast.copy_location(ast.Pass(), s)] if f == 'body' else []))
            for h in getattr(s, 'handlers', []):
                h.body = put_result(h.body, make) or [ast.copy_location(ast.Pass(), s)]
        out.append(s)
    return out


def end_with(body, stmts):
    '''Appends statements wherever control falls off the end.'''
    if not falls(body):
        return body
    if body and isinstance(body[-1], ast.If) and not (falls(body[-1].body) and falls(body[-1].orelse)):
        s = body[-1]
        if falls(s.body):
            s.body = end_with(s.body, stmts)
        else:
            s.orelse = end_with(s.orelse, stmts)
        return body
    if body and isinstance(body[-1], LOOPS) and getattr(body[-1], 'had_returns', False):
        body[-1].orelse = end_with(body[-1].orelse, stmts)
        return body
    if body and isinstance(body[-1], ast.Try) and any(isinstance(x, ast.Return) for x in walk_own(body[-1])):
        raise No
    if body and isinstance(body[-1], (ast.With, ast.AsyncWith)) and any(isinstance(x, ast.Return) for x in walk_own(body[-1])):
        body[-1].body = end_with(body[-1].body, stmts)
        return body
    if body and isinstance(body[-1], ast.If) and any(isinstance(x, ast.Return) for x in walk_own(body[-1])):
        body[-1].body = end_with(body[-1].body, stmts)
        body[-1].orelse = end_with(body[-1].orelse, copy.deepcopy(stmts))
        return body
    return body + stmts


class Helper:
    def __init__(self, fi, mod, cls):
        self.fi = fi
        self.node = fi.node
        self.mod = mod
        self.cls = cls
        self.name = fi.name
        n = self.node
        a = n.args
        self.static = 'staticmethod' in fi.decorators
        if a.vararg or a.kwarg or a.posonlyargs or fi.is_gen or [d for d in fi.decorators if d != 'staticmethod']:
            raise No
        self.params = [x.arg for x in a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.defaults = dict(zip(self.params[len(self.params) - len(a.defaults):], a.defaults))
        self.defaults.update({k: v for k, v in zip(self.kwonly, a.kw_defaults) if v is not None})
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            body = body[1:]
        self.body = body or [ast.copy_location(ast.Pass(), n)]
        for x in own_nodes(self.body):
            if isinstance(x, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom)):
                raise No
            if isinstance(x, FN + (ast.ClassDef, ast.Lambda)):
                raise No
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('super', 'locals', 'vars'):
                raise No
            if isinstance(x, ast.Call) and self.matches(x):
                raise No

    def matches(self, c):
        f = c.func
        if self.cls is None:
            return isinstance(f, ast.Name) and f.id == self.name
        return isinstance(f, ast.Attribute) and f.attr == self.name and isinstance(f.value, ast.Name) and f.value.id in (
            'self', 'cls', self.cls.name)


def target_names(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in t.elts):
        return [e.id for e in t.elts]
    return None


class Inliner:
    def __init__(self, helpers):
        self.helpers = helpers
        self.count = 0
        self.done = 0

    def find(self, c, mod, cls, fname):
        if not isinstance(c, ast.Call):
            return None
        for h in self.helpers:
            if h.mod is mod and h.matches(c) and (h.cls is None or h.cls is cls or cls is not None and h.cls.name in [
                    b.id for b in cls.base_exprs if isinstance(b, ast.Name)]) and h.name != fname:
                return h
        return None

    def func(self, fn, mod, cls):
        self.fn, self.mod, self.cls = fn, mod, cls
        self.names = all_names(fn)
        before = self.done
        fn.body = self.block(fn.body)
        return self.done != before

    def block(self, b):
        out = []
        for s in b:
            for f in ('body', 'orelse', 'finalbody'):
                x = getattr(s, f, None)
                if isinstance(x, list) and x and isinstance(x[0], ast.stmt) and not isinstance(s, ast.ClassDef):
                    setattr(s, f, self.block(x))
            for h in getattr(s, 'handlers', []):
                h.body = self.block(h.body)
            for c in getattr(s, 'cases', []):
                c.body = self.block(c.body)
            out.extend(self.stmt(s))
        return out

    def call_of(self, e):
        '''(call, awaited) of an expression that is nothing but a call.'''
        if isinstance(e, ast.Await):
            return e.value, True
        return e, False

    def stmt(self, s):
        try:
            if isinstance(s, (ast.Expr, ast.Return)) and s.value is not None or isinstance(s, ast.Assign) and len(s.targets) == 1 or isinstance(
                    s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                c, aw = self.call_of(s.value)
                h = self.find(c, self.mod, self.cls, self.fn.name)
                if h is not None and aw == isinstance(h.node, ast.AsyncFunctionDef):
                    return self.expand(s, c, h)
            if isinstance(s, ast.If):
                t = s.test
                holder, attr = s, 'test'
                while True:
                    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                        holder, attr, t = t, 'operand', t.operand
                    elif isinstance(t, ast.BoolOp):
                        holder, attr, t = t, 0, t.values[0]
                    elif isinstance(t, ast.Compare):
                        holder, attr, t = t, 'left', t.left
                    else:
                        break
                c, aw = self.call_of(t)
                h = self.find(c, self.mod, self.cls, self.fn.name)
                if h is not None and aw == isinstance(h.node, ast.AsyncFunctionDef):
                    v = self.fresh('test')
                    a = ast.copy_location(ast.Assign([ast.copy_location(ast.Name(v, ast.Store()), t)], t), t)
                    new = self.expand(a, c, h)
                    n = ast.copy_location(ast.Name(v, ast.Load()), t)
                    if attr == 0:
                        holder.values[0] = n
                    else:
                        setattr(holder, attr, n)
                    return new + [s]
        except No:
            pass
        self.simple(s)
        return [s]

    def simple(self, s):
        '''Calls of functions that only return an expression, anywhere in a statement.'''
        outer = self

        class V(ast.NodeTransformer):
            def visit_FunctionDef(self, n):
                return n

            visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

            def visit_Await(self, n):
                self.generic_visit(n)
                h = outer.find(n.value, outer.mod, outer.cls, outer.fn.name)
                if h is not None and isinstance(h.node, ast.AsyncFunctionDef):
                    return outer.expression(n.value, h) or n
                return n

            def visit_Call(self, n):
                self.generic_visit(n)
                h = outer.find(n, outer.mod, outer.cls, outer.fn.name)
                if h is not None and not isinstance(h.node, ast.AsyncFunctionDef):
                    return outer.expression(n, h) or n
                return n

        v = V()
        for f, x in ast.iter_fields(s):
            if isinstance(x, ast.expr):
                setattr(s, f, v.visit(x))
            elif isinstance(x, list) and x and isinstance(x[0], ast.expr):
                setattr(s, f, [v.visit(y) for y in x])
            elif isinstance(x, list) and x and isinstance(x[0], ast.withitem):
                for y in x:
                    y.context_expr = v.visit(y.context_expr)

    def expression(self, c, h):
        if len(h.body) != 1 or not isinstance(h.body[0], ast.Return) or h.body[0].value is None:
            return None
        try:
            args = self.bind(c, h)
        except No:
            return None
        e = h.body[0].value
        uses = {}
        for n in ast.walk(e):
            if isinstance(n, ast.Name):
                uses[n.id] = uses.get(n.id, 0) + 1
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.NamedExpr)):
                inner = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)}
                if any(inner & all_names(a) for a in args.values()):
                    return None
        for p, a in args.items():
            if not simple_expr(a) and (uses.get(p, 0) > 1 or uses.get(p, 0) == 0):
                return None
        self.done += 1
        r = Sub({}, args).visit(copy.deepcopy(e))
        ast.copy_location(r, c)
        return r

    def bind(self, c, h):
        '''param -> argument'''
        ps = list(h.params)
        r = {}
        if h.cls is not None and not h.static:
            if not ps:
                raise No
            r[ps[0]] = c.func.value
            if c.func.value.id not in ('self', 'cls'):
                raise No
            ps = ps[1:]
        if any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords) or len(c.args) > len(ps):
            raise No
        for p, a in zip(ps, c.args):
            r[p] = a
        for k in c.keywords:
            if k.arg in r or k.arg not in ps + h.kwonly:
                raise No
            r[k.arg] = k.value
        for p in ps + h.kwonly:
            if p not in r:
                d = h.defaults.get(p)
                if not isinstance(d, ast.Constant):
                    raise No
                r[p] = d
        return r

    def fresh(self, p):
        self.count += 1
        v = '%s__%d' % (p, self.count)
        self.names.add(v)
        return v

    def expand(self, s, c, h):
        args = self.bind(c, h)
        body = copy.deepcopy(h.body)
        if not isinstance(s, ast.Return):
            body = tail_form(body)
        bound = bound_names(h.body)
        tgt = None
        if isinstance(s, ast.Assign):
            tgt = target_names(s.targets[0])
        # names given back under the name they already have
        keep = set()
        rets = [n for n in own_nodes(h.body) if isinstance(n, ast.Return)]
        if tgt and len(rets) == 1 and rets[0] is h.body[-1] and rets[0].value is not None:
            v = rets[0].value
            got = [v.id] if isinstance(v, ast.Name) else [e.id if isinstance(e, ast.Name) else None for e in v.elts] if isinstance(v, ast.Tuple) else []
            if got == tgt:
                keep = set(got)
        ren, exprs, pre = {}, {}, []
        for p, a in args.items():
            same = isinstance(a, ast.Name) and a.id == p
            if p in bound:
                if same and p in keep:
                    continue
                v = p if p not in self.names else self.fresh(p)
                self.names.add(v)
                ren[p] = v
                pre.append(ast.copy_location(ast.Assign([ast.copy_location(ast.Name(v, ast.Store()), c)], a), c))
            elif same:
                pass
            elif isinstance(a, (ast.Name, ast.Constant)) and not (isinstance(a, ast.Name) and a.id in bound and a.id in keep):
                exprs[p] = a
            else:
                v = p if p not in self.names else self.fresh(p)
                self.names.add(v)
                ren[p] = v
                pre.append(ast.copy_location(ast.Assign([ast.copy_location(ast.Name(v, ast.Store()), c)], a), c))
        for b in sorted(bound):
            if b in args or b in keep:
                continue
            if b in self.names:
                ren[b] = self.fresh(b)
            else:
                self.names.add(b)
        # free names of the helper must not mean something else here
        free = {n.id for n in own_nodes(h.body) if isinstance(n, ast.Name)} - bound - set(args)
        mine = bound_names(self.fn.body) | {a.arg for a in ast.walk(self.fn.args) if isinstance(a, ast.arg)}
        if free & mine - comp_names(h.body):
            raise No
        # comprehension variables are no problem: they stay inside
        for x in body:
            Sub(ren, exprs).visit(x)
        if isinstance(s, ast.Return):
            if not leaves(body):
                body = body + [ast.copy_location(ast.Return(ast.copy_location(ast.Constant(None), s)), s)]
        elif isinstance(s, ast.Expr):
            body = put_result(body, lambda v, r: [] if v is None or isinstance(v, (ast.Constant, ast.Name)) else [ast.copy_location(ast.Expr(v), r)])
        else:
            tn = s.targets[0] if isinstance(s, ast.Assign) else s.target
            none = ast.copy_location(ast.Assign([copy.deepcopy(tn)], ast.copy_location(ast.Constant(None), s)), s)
            body = end_with(body, [none]) if falls(body) else body

            def make(v, r):
                if v is None:
                    v = ast.copy_location(ast.Constant(None), r)
                if ast.dump(as_load(tn)) == ast.dump(as_load(v)):
                    return []
                return [ast.copy_location(ast.Assign([copy.deepcopy(tn)], v), r)]

            body = put_result(body, make)
        for x in pre + body:
            ast.fix_missing_locations(x)
        self.done += 1
        body = self.block(body) if self.done < 400 else body
        return pre + body or [ast.copy_location(ast.Pass(), s)]


def as_load(t):
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, 'ctx'):
            n.ctx = ast.Load()
    return t


def simple_expr(a):
    while isinstance(a, ast.Attribute):
        a = a.value
    return isinstance(a, (ast.Name, ast.Constant))


def comp_names(body):
    r = set()
    for n in own_nodes(body):
        if isinstance(n, ast.comprehension):
            r |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
    return r


def references(repo, modules=None):
    r = {}
    for m in modules or repo.modules.values():
        for n in ast.walk(m.tree):
            x = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
            if x:
                r[x] = r.get(x, 0) + 1
            if isinstance(n, ast.ImportFrom):
                for a in n.names:
                    r[a.name] = r.get(a.name, 0) + 1
    return r


def inline_helpers(repo, known):
    for _ in range(4):
        helpers = []
        classes = [ci for m in repo.modules.values() for ci in m.classes.values()]

        def alone(ci, name):
            '''No class above or below has a method with this name.'''
            for o in classes:
                if o is not ci and name in o.methods and (o in repo.mro(ci) or ci in repo.mro(o)):
                    return False
            return True

        for m in repo.modules.values():
            for f in list(m.functions.values()):
                if f.qual not in known:
                    try:
                        helpers.append(Helper(f, m, None))
                    except No:
                        pass
            for ci in m.classes.values():
                for f in list(ci.methods.values()):
                    if f.qual not in known and not f.name.startswith('__') and alone(ci, f.name):
                        try:
                            helpers.append(Helper(f, m, ci))
                        except No:
                            pass
        if not helpers:
            return
        inl = Inliner(helpers)
        for m in repo.modules.values():
            if not any(h.mod is m for h in helpers):
                continue
            for f in m.functions.values():
                visit(inl, f.node, m, None)
            for ci in m.classes.values():
                for f in ci.methods.values():
                    visit(inl, f.node, m, ci)
        allrefs = references(repo)
        refs = {}
        gone = 0
        for h in helpers:
            mods = [h.mod]
            if h.cls is not None:
                mods += [c.mod for c in classes if c in repo.mro(h.cls) or h.cls in repo.mro(c)]
            for m in mods:
                if m not in refs:
                    refs[m] = references(repo, [m])
            if not allrefs.get(h.name) or h.name.startswith('_') and not any(refs[m].get(h.name) for m in mods):
                gone += 1
                if h.cls is None:
                    del h.mod.functions[h.name]
                    remove(h.mod.tree, h.node)
                else:
                    del h.cls.methods[h.name]
                    h.cls.node.body.remove(h.node) if h.node in h.cls.node.body else None
        if not gone:
            return


def remove(tree, node):
    for n in ast.walk(tree):
        for f in ('body', 'orelse'):
            x = getattr(n, f, None)
            if isinstance(x, list) and node in x:
                x.remove(node)
                if not x:
                    x.append(ast.copy_location(ast.Pass(), node))
                return


def visit(inl, fn, mod, cls):
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, FN):
            inl.func(n, mod, cls)
    inl.func(fn, mod, cls)

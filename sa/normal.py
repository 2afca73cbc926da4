'''Normal form of the parsed source.

Rewritings that keep the meaning and let the rules see the same program however it is written: named constants that were introduced
after the rules were written, local names for literals, loops that test their condition in the first statement.
'''

from __future__ import annotations

import ast
import copy
import string

FN = (ast.FunctionDef, ast.AsyncFunctionDef)
KINDS = (str, bytes, int, float, type(None))


def plain(node):
    '''A literal without parts that can change.'''
    if isinstance(node, ast.Constant) and isinstance(node.value, KINDS):
        return True
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        return plain(node.operand)
    if isinstance(node, ast.Tuple):
        return all(plain(e) for e in node.elts)
    if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Mult)):
        return plain(node.left) and plain(node.right)
    return False


def stores(tree):
    '''name -> number of assignments below a node (any scope).'''
    r = {}
    for n in ast.walk(tree):
        x = None
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
            x = n.id
        elif isinstance(n, ast.arg):
            x = n.arg
        elif isinstance(n, ast.ExceptHandler):
            x = n.name
        elif isinstance(n, FN + (ast.ClassDef,)):
            x = n.name
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)):
            x = n.name
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                y = a.asname or a.name.split('.')[0]
                r[y] = r.get(y, 0) + 1
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            for y in n.names:
                r[y] = r.get(y, 0) + 2
        if x:
            r[x] = r.get(x, 0) + 1
    return r


class Replace(ast.NodeTransformer):
    '''Replaces loads of names (and of attributes) by literals.'''
    def __init__(self, names, attrs=None):
        self.names = names
        self.attrs = attrs or {}
        self.count = 0

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.names:
            self.count += 1
            return self.put(self.names[n.id], n)
        return n

    def put(self, lit, n):
        c = copy.deepcopy(lit)
        for x in ast.walk(c):
            ast.copy_location(x, n)
        return c

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and n.attr in self.attrs and isinstance(n.value, ast.Name):
            lit = self.attrs[n.attr].get(n.value.id) or self.attrs[n.attr].get(None) if n.value.id in ('self', 'cls') else self.attrs[
                n.attr].get(n.value.id)
            if lit is not None:
                return self.put(lit, n)
        return n

    def scoped(self, n):
        own = stores_own(n)
        hidden = {k: v for k, v in self.names.items() if k in own}
        if hidden:
            old = self.names
            self.names = {k: v for k, v in old.items() if k not in own}
            self.generic_visit(n)
            self.names = old
        else:
            self.generic_visit(n)
        return n

    visit_FunctionDef = visit_AsyncFunctionDef = visit_Lambda = scoped


def stores_own(fn):
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    r = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, FN + (ast.ClassDef,)):
            r.add(n.name)
            continue
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
            r.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            r.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            r |= {a.asname or a.name.split('.')[0] for a in n.names}
        elif isinstance(n, ast.Global):
            r |= set(n.names)
        todo.extend(ast.iter_child_nodes(n))
    return r


class Locals(ast.NodeTransformer):
    '''Local names that always stand for the same literal.'''
    def fn(self, n):
        self.generic_visit(n)
        count = stores(n)
        lits = {}
        todo = list(n.body)
        while todo:
            s = todo.pop()
            if isinstance(s, FN + (ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                t, v = s.targets[0].id, s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                t, v = s.target.id, s.value
            else:
                t = None
            if t is not None:
                if count.get(t) == 1 and plain(v) and not isinstance(v, ast.Tuple) and not (isinstance(v, ast.Constant) and not isinstance(
                        v.value, (str, bytes))):
                    lits[t] = v
            else:
                todo.extend(ast.iter_child_nodes(s))
        if lits:
            r = Replace(lits)
            n.body = [r.visit(s) if not isinstance(s, FN) else r.generic_visit(s) for s in n.body]
        return n

    visit_FunctionDef = visit_AsyncFunctionDef = fn


class Loops(ast.NodeTransformer):
    def visit_While(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.Constant) and n.test.value and not n.orelse and len(n.body) > 1:
            s = n.body[0]
            if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Break) and not s.orelse:
                t = s.test
                n.test = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.copy_location(ast.UnaryOp(
                    ast.Not(), t), t)
                n.body = n.body[1:]
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        c = n.iter
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'iter' and len(c.args) == 1 and not c.keywords:
            n.iter = c.args[0]
        return n


NEG = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}


class Forms(ast.NodeTransformer):
    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        c = n.operand
        if isinstance(n.op, ast.Not) and isinstance(c, ast.Compare) and len(c.ops) == 1 and type(c.ops[0]) in NEG:
            return ast.copy_location(ast.Compare(c.left, [NEG[type(c.ops[0])]()], c.comparators), n)
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        t, v = n.targets[0], n.value
        if len(n.targets) == 1 and isinstance(t, ast.Attribute) and isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Add, ast.Sub)):
            if same(t, v.left):
                return ast.copy_location(ast.AugAssign(t, v.op, v.right), n)
            if isinstance(v.op, ast.Add) and same(t, v.right) and isinstance(v.left, ast.Constant) and isinstance(v.left.value, int):
                return ast.copy_location(ast.AugAssign(t, v.op, v.left), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(f.value, ast.Constant) and isinstance(
                f.value.value, str) and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            parts = []
            k = 0
            try:
                fields = list(string.Formatter().parse(f.value.value))
            except ValueError:
                return n
            for lit, field, spec, conv in fields:
                if lit:
                    parts.append(ast.Constant(lit))
                if field is None:
                    continue
                if field == '' or field == str(k):
                    if spec or conv or k >= len(n.args):
                        return n
                    parts.append(ast.FormattedValue(n.args[k], -1, None))
                    k += 1
                else:
                    return n
            if k != len(n.args):
                return n
            j = ast.JoinedStr(parts)
            for x in ast.walk(j):
                if not hasattr(x, 'lineno') and isinstance(x, ast.expr):
                    ast.copy_location(x, n)
            return j
        return n


def same(a, b):
    return ast.dump(a).replace('Store()', 'Load()') == ast.dump(b).replace('Store()', 'Load()')


class Temps(ast.NodeTransformer):
    '''Names that are assigned directly before the only statement that reads them.'''
    def fn(self, n):
        self.generic_visit(n)
        count = stores(n)
        loads = {}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                loads[x.id] = loads.get(x.id, 0) + 1
        self.block(n.body, count, loads)
        return n

    visit_FunctionDef = visit_AsyncFunctionDef = fn

    def block(self, b, count, loads):
        for s in b:
            if isinstance(s, FN + (ast.ClassDef,)):
                continue
            for f in ('body', 'orelse', 'finalbody'):
                x = getattr(s, f, None)
                if isinstance(x, list) and x and isinstance(x[0], ast.stmt):
                    self.block(x, count, loads)
            for h in getattr(s, 'handlers', []):
                self.block(h.body, count, loads)
        i = len(b) - 2
        while i >= 0:
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(
                    t, (ast.Expr, ast.Assign, ast.Return)) and t.value is not None:
                v = s.targets[0].id
                if count.get(v) == 1 and loads.get(v) == 1 and self.put(t, v, s.value):
                    del b[i]
            i -= 1

    def put(self, t, v, e):
        if isinstance(t, ast.Return) and isinstance(t.value, ast.Name) and t.value.id == v:
            t.value = e
            return True
        c = t.value.value if isinstance(t.value, ast.Await) else t.value
        if not isinstance(c, ast.Call) or not movable(e) or not movable(c.func):
            return False
        for k, a in enumerate(c.args):
            if isinstance(a, ast.Name) and a.id == v:
                c.args[k] = e
                return True
            if not movable(a):
                return False
        for k in c.keywords:
            if isinstance(k.value, ast.Name) and k.value.id == v:
                k.value = e
                return True
            if not movable(k.value):
                return False
        return False


def movable(e):
    '''Evaluating this has no effect and calls nothing.'''
    return not any(isinstance(n, (ast.Call, ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Lambda, ast.ListComp, ast.SetComp,
                                  ast.DictComp, ast.GeneratorExp, ast.Starred)) for n in ast.walk(e))


def normalize(repo, known):
    glob = {}
    attrs = {}
    for m in repo.modules.values():
        count = None
        for name, node in m.assigns.items():
            if 'G:%s.%s' % (m.name, name) in known or not plain(node):
                continue
            if count is None:
                count = {}
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Global):
                        for y in n.names:
                            count[y] = 9
                for s in m._toplevel(m.tree.body):
                    if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                        for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                            for n in ast.walk(t):
                                if isinstance(n, ast.Name):
                                    count[n.id] = count.get(n.id, 0) + 1
            if count.get(name) == 1:
                glob[m.name + '.' + name] = node
        for ci in m.classes.values():
            for name, node in ci.consts.items():
                if 'G:%s.%s' % (ci.qual, name) not in known and plain(node):
                    attrs.setdefault(name, {})[ci.name] = node
    if attrs:
        written = {n.attr for m in repo.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.Attribute) and not isinstance(
            n.ctx, ast.Load)}
        defs = {}
        for m in repo.modules.values():
            for ci in m.classes.values():
                for name in list(ci.consts) + list(ci.methods):
                    defs[name] = defs.get(name, 0) + 1
        attrs = {a: d for a, d in attrs.items() if a not in written and defs.get(a) == 1}
        for d in attrs.values():
            d[None] = next(iter(d.values()))
    for m in repo.modules.values():
        names = {}
        for q, node in glob.items():
            mod, _, name = q.rpartition('.')
            if mod == m.name:
                names[name] = node
        for local, q in m.imports.items():
            if q in glob:
                names[local] = glob[q]
        if names or attrs:
            r = Replace(names, attrs)
            for _ in range(2):
                for s in m.tree.body:
                    r.visit(s)
        Loops().visit(m.tree)
        Locals().visit(m.tree)
        Forms().visit(m.tree)
        Temps().visit(m.tree)

#!/usr/bin/env python3
'''refactor.py NAME OUTDIR [FILE...]: write a copy of /repo to OUTDIR in which a behaviour-preserving rewriting was applied everywhere.

Used to look for false alarms: the checks have to stay quiet on the result.'''
import ast
import os
import shutil
import sys
import copy

FN = (ast.FunctionDef, ast.AsyncFunctionDef)
LOOPS = (ast.For, ast.AsyncFor, ast.While)


def walk_own(node):
    '''Nodes of a function without nested functions and classes.'''
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, FN + (ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


def name(x, ctx=None):
    return ast.Name(x, ctx or ast.Load())


class Blocks(ast.NodeTransformer):
    '''Calls self.block(list) for every statement list in functions, innermost first.'''
    infunc = 0

    def visit_fn(self, n):
        self.infunc += 1
        self.stack.append(n)
        self.generic_visit(n)
        self.stack.pop()
        self.infunc -= 1
        return n

    def __init__(self):
        self.stack = []
        self.n = 0
        self.new = []

    def visit_FunctionDef(self, n):
        return self.visit_fn(n)

    visit_AsyncFunctionDef = visit_FunctionDef

    def generic_visit(self, node):
        ast.NodeTransformer.generic_visit(self, node)
        if self.infunc and not isinstance(node, ast.ClassDef):
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(node, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    doc = []
                    if f == 'body' and isinstance(node, FN) and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
                        doc, b = b[:1], b[1:]
                    setattr(node, f, doc + (self.block(b, node, f) if b else []))
        return node

    def block(self, b, node, f):
        r = []
        for s in b:
            x = self.stmt(s)
            r.extend(x if isinstance(x, list) else [x])
        return r

    def stmt(self, s):
        return s

    def fresh(self, p='tmp'):
        self.n += 1
        return '%s_%d_' % (p, self.n)


class Nop(Blocks):
    pass


def stored(fn):
    s = set()
    for n in walk_own(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            s.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            s.add(n.name)
    return s


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, fn):
        skip = set()
        own = stored(fn)
        for n in ast.walk(fn):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                skip.update(n.names)
            if isinstance(n, ast.arg):
                skip.add(n.arg)
            if isinstance(n, FN) and n is not fn:
                skip |= stored(n)
                skip.add(n.name)
            if isinstance(n, ast.ClassDef):
                skip |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                skip |= {(a.asname or a.name).split('.')[0] for a in n.names}
        own -= skip
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in own:
                n.id += '_v'
            elif isinstance(n, ast.ExceptHandler) and n.name in own:
                n.name += '_v'
        return fn

    visit_AsyncFunctionDef = visit_FunctionDef


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        op = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In}.get(
            type(t.ops[0]))
        if op:
            return ast.Compare(t.left, [op()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


class SwapIf(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse:
            return ast.If(neg(s.test), s.orelse, s.body)
        return s


def leaves(b):
    return isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class GuardElse(Blocks):
    '''if c: return; rest -> if not c: rest else: return'''
    def block(self, b, node, f):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and leaves(s.body) and i + 1 < len(b):
                rest = self.block(b[i + 1:], None, None)
                return b[:i] + [ast.If(neg(s.test), rest, s.body)]
        return b


class ElseGuard(Blocks):
    '''if c: return else: B -> if c: return; B'''
    def block(self, b, node, f):
        r = []
        for s in b:
            if isinstance(s, ast.If) and s.orelse and leaves(s.body):
                r.append(ast.If(s.test, s.body, []))
                r.extend(s.orelse)
            else:
                r.append(s)
        return r


def has(n, *types):
    return any(isinstance(x, types) for x in ast.walk(n))


class CondVar(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and not has(s.test, ast.NamedExpr) and not isinstance(s.test, (ast.Name, ast.Constant)):
            v = self.fresh('cond')
            return [ast.Assign([name(v, ast.Store())], s.test), ast.If(name(v), s.body, s.orelse)]
        return s


class WhileTrue(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.While) and not s.orelse and not (isinstance(s.test, ast.Constant)):
            return ast.While(ast.Constant(True), [ast.If(neg(s.test), [ast.Break()], [])] + s.body, [])
        return s


class ArgTemps(Blocks):
    def stmt(self, s):
        if not isinstance(s, (ast.Expr, ast.Assign, ast.Return, ast.AugAssign)) or s.value is None:
            return s
        if isinstance(s, ast.Assign) and not (len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute))):
            return s
        c = s.value.value if isinstance(s.value, ast.Await) else s.value
        if not isinstance(c, ast.Call) or has(c, ast.NamedExpr, ast.Yield):
            return s
        if any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
            return s
        if has(c.func, ast.Call) or isinstance(c.func, ast.Name) and c.func.id in ('super', 'cast', 'len'):
            return s
        if isinstance(s, ast.AugAssign):
            return s
        pre = []
        simple = (ast.Name, ast.Constant, ast.Lambda)
        def tmp(a):
            if isinstance(a, simple):
                return a
            v = self.fresh('arg')
            pre.append(ast.Assign([name(v, ast.Store())], a))
            return name(v)
        c.args = [tmp(a) for a in c.args]
        for k in c.keywords:
            k.value = tmp(k.value)
        return pre + [s]


class RetVar(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Constant):
            return [ast.Assign([name('result_', ast.Store())], s.value), ast.Return(name('result_'))]
        return s


class AugSplit(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Name, ast.Attribute)) and not has(s.target, ast.Call) and not (
                isinstance(s.value, (ast.Set, ast.List, ast.ListComp))) and not isinstance(s.op, (ast.BitOr, ast.BitAnd)):
            l = copy.deepcopy(s.target)
            l.ctx = ast.Load()
            return ast.Assign([s.target], ast.BinOp(l, s.op, s.value))
        return s


class ForTuple(Blocks):
    def stmt(self, s):
        if isinstance(s, (ast.For, ast.AsyncFor)) and isinstance(s.target, ast.Tuple):
            v = self.fresh('row')
            t = s.target
            s.target = name(v, ast.Store())
            s.body = [ast.Assign([t], name(v))] + s.body
        return s


class Percent(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            import re
            t = n.left.value
            if '{' in t or '}' in t:
                return n
            ph = re.findall(r'%(.?)', t)
            if not all(p in 'sd%' for p in ph) or not ph:
                return n
            args = n.right.elts if isinstance(n.right, ast.Tuple) else [n.right]
            if not isinstance(n.right, ast.Tuple) and isinstance(n.right, ast.Dict):
                return n
            if '%(' in t or len([p for p in ph if p in 'sd']) != len(args) or '%%' in t:
                return n
            if not isinstance(n.right, ast.Tuple) and not isinstance(n.right, (ast.Attribute, ast.Name, ast.Constant, ast.Call, ast.Subscript)):
                return n
            if self.fstring:
                vals = []
                parts = re.split(r'%[sd]', t)
                for i, p in enumerate(parts):
                    if p:
                        vals.append(ast.Constant(p))
                    if i < len(args):
                        vals.append(ast.FormattedValue(args[i], -1, None))
                return ast.JoinedStr(vals)
            return ast.Call(ast.Attribute(ast.Constant(re.sub('%[sd]', '{}', t)), 'format', ast.Load()), args, [])
        return n

    fstring = False

    def visit_Call(self, n):
        return self.generic_visit(n)


class PercentF(Percent):
    fstring = True


class FlipCmp(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) != 1:
            return n
        a, o, b = n.left, n.ops[0], n.comparators[0]
        if has(a, ast.Await, ast.NamedExpr) or has(b, ast.Await, ast.NamedExpr) or has(a, ast.Call) and has(b, ast.Call):
            return n
        m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}.get(type(o))
        if m:
            return ast.Compare(b, [m()], [a])
        if isinstance(o, ast.IsNot):
            return ast.UnaryOp(ast.Not(), ast.Compare(a, [ast.Is()], [b]))
        if isinstance(o, ast.NotIn):
            return ast.UnaryOp(ast.Not(), ast.Compare(a, [ast.In()], [b]))
        return n


class SplitAnd(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp) and not s.orelse:
            v = s.test.values
            if isinstance(s.test.op, ast.And):
                body = s.body
                for t in reversed(v):
                    body = [ast.If(t, body, [])]
                return body[0]
            if leaves(s.body):
                return [ast.If(t, copy.deepcopy(s.body), []) for t in v]
        return s


class DeMorgan(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [neg(v) for v in n.test.values]))
        return n


class SplitWith(Blocks):
    def stmt(self, s):
        if isinstance(s, (ast.With, ast.AsyncWith)) and len(s.items) > 1:
            body = s.body
            for it in reversed(s.items):
                body = [type(s)([it], body)]
            return body[0]
        return s


class LogEverywhere(Blocks):
    def block(self, b, node, f):
        if node is not None and 'log' in self.globals and f == 'body':
            return [ast.Expr(ast.Call(ast.Attribute(name('log'), 'debug', ast.Load()), [ast.Constant('here')], []))] + b
        return b


class NoopAssign(Blocks):
    def block(self, b, node, f):
        return [ast.Assign([name('_unused', ast.Store())], ast.Constant(None))] + b


class TernaryIf(Blocks):
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
            e = s.value
            a, b = copy.deepcopy(s), copy.deepcopy(s)
            a.value, b.value = e.body, e.orelse
            return ast.If(e.test, [a], [b])
        return s


class IfTernary(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and len(s.body) == 1 == len(s.orelse) and all(isinstance(x, ast.Assign) for x in s.body + s.orelse):
            a, b = s.body[0], s.orelse[0]
            if len(a.targets) == 1 and ast.dump(a.targets[0]) == ast.dump(b.targets[0]) and isinstance(a.targets[0], ast.Name):
                return ast.Assign(a.targets, ast.IfExp(s.test, a.value, b.value))
        return s


class CompLoop(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(
                s.value, (ast.ListComp, ast.SetComp)) and len(s.value.generators) == 1:
            g = s.value.generators[0]
            x = s.targets[0]
            used = {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)}
            tn = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            others = {n.id for n in ast.walk(self.stack[-1]) if isinstance(n, ast.Name)} - set()
            if x.id in used:
                return s
            cnt = {}
            for n in ast.walk(self.stack[-1]):
                if isinstance(n, ast.Name):
                    cnt[n.id] = cnt.get(n.id, 0) + 1
            loc = {}
            for n in ast.walk(s.value):
                if isinstance(n, ast.Name):
                    loc[n.id] = loc.get(n.id, 0) + 1
            if any(cnt[t] != loc[t] for t in tn):
                return s
            ls = isinstance(s.value, ast.ListComp)
            body = [ast.Expr(ast.Call(ast.Attribute(name(x.id), 'append' if ls else 'add', ast.Load()), [s.value.elt], []))]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            init = ast.List([], ast.Load()) if ls else ast.Call(name('set'), [], [])
            return [ast.Assign(s.targets, init), (ast.AsyncFor if g.is_async else ast.For)(g.target, g.iter, body, [])]
        return s


class HoistStr(Blocks):
    '''Move string constants that are call arguments to module level.'''
    minlen = 8

    def visit_Call(self, c):
        self.generic_visit(c)
        if not self.infunc or isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id in ('log', 'typer'):
            return c
        if isinstance(c.func, ast.Name) and c.func.id in ('print', 'cast', 'QuietError'):
            return c
        c.args = [self.h(a) for a in c.args]
        return c

    def visit_fn(self, n):
        d, n.decorator_list = n.decorator_list, []
        a, n.args = n.args, ast.arguments([], [], None, [], [], None, [])
        rt, n.returns = n.returns, None
        n = Blocks.visit_fn(self, n)
        n.decorator_list, n.args, n.returns = d, a, rt
        return n

    def h(self, a):
        if isinstance(a, ast.Constant) and isinstance(a.value, (str, bytes)) and len(a.value) >= self.minlen:
            v = '_CONST_%d' % len(self.new)
            self.new.append(ast.Assign([name(v, ast.Store())], a))
            return name(v)
        return a


class Suppress(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Try) and len(s.handlers) == 1 and not s.orelse and not s.finalbody and s.handlers[0].type and not s.handlers[
                0].name and len(s.handlers[0].body) == 1 and isinstance(s.handlers[0].body[0], ast.Pass):
            t = s.handlers[0].type
            args = t.elts if isinstance(t, ast.Tuple) else [t]
            if not any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) for b in s.body for x in ast.walk(b)):
                self.imports.add('contextlib')
                return ast.With([ast.withitem(ast.Call(ast.Attribute(name('contextlib'), 'suppress', ast.Load()), args, []))], s.body)
        return s


class Reverse(ast.NodeTransformer):
    '''Reverse the order of methods.'''
    def visit_ClassDef(self, n):
        self.generic_visit(n)
        if any(isinstance(x, FN) and x.decorator_list for x in n.body):
            return n
        m = [x for x in n.body if isinstance(x, FN)]
        if len({x.name for x in m}) != len(m):
            return n
        it = iter(reversed(m))
        n.body = [next(it) if isinstance(x, FN) else x for x in n.body]
        return n


def assigned(stmts):
    s = set()
    for st in stmts:
        for n in [st] + list(walk_own(st)):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                s.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                s.add(n.name)
            elif isinstance(n, FN + (ast.ClassDef,)):
                s.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                s |= {(a.asname or a.name).split('.')[0] for a in n.names}
    return s


def used(stmts):
    return {n.id for st in stmts for n in ast.walk(st) if isinstance(n, ast.Name)}


def definite(stmts):
    '''Names that are certainly assigned by these statements.'''
    s = set()
    for st in stmts:
        if isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and getattr(st, 'value', None) is not None:
            for t in st.targets if isinstance(st, ast.Assign) else [st.target]:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        s.add(n.id)
        elif isinstance(st, ast.If) and st.orelse:
            a, b = definite(st.body), definite(st.orelse)
            s |= a & b
            if leaves(st.body):
                s |= b
            if leaves(st.orelse):
                s |= a
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            s |= definite(st.body)
    return s


class Extract(Blocks):
    '''Move statement groups into new functions.'''
    where = 'loop'

    def wanted(self, node, f):
        if self.where == 'loop':
            return isinstance(node, LOOPS) and f == 'body'
        if self.where == 'try':
            return isinstance(node, ast.Try) and f == 'body'
        if self.where == 'handler':
            return isinstance(node, ast.ExceptHandler) and f == 'body'
        if self.where == 'branch':
            return isinstance(node, ast.If)
        if self.where == 'with':
            return isinstance(node, (ast.With, ast.AsyncWith))
        if self.where in ('head', 'tail', 'mid'):
            return isinstance(node, FN) and len(node.body) > 3
        return False

    def visit_fn(self, n):
        if self.stack:
            return n     # no nested functions
        r = Blocks.visit_fn(self, n)
        if self.pending:
            (self.siblings if self.methods else self.new).extend(self.pending)
            self.pending = []
        return r

    pending = ()

    def visit_ClassDef(self, n):
        self.siblings = []
        self.methods = self.as_method
        ast.NodeTransformer.generic_visit(self, n)
        n.body.extend(self.siblings)
        self.siblings = []
        self.methods = False
        return n

    methods = False
    as_method = True

    def block(self, b, node, f):
        if not self.wanted(node, f):
            return b
        if self.where == 'head':
            k = len(b) // 2
            x = self.extract(b[:k], b[k:])
            return x + b[k:] if x else b
        if self.where == 'mid':
            k = max(1, len(b) // 3)
            x = self.extract(b[k:2 * k], b[2 * k:], before=b[:k])
            return b[:k] + x + b[2 * k:] if x else b
        if self.where == 'tail':
            k = len(b) // 2
            x = self.extract(b[k:], [], tail=True)
            return b[:k] + x if x else b
        return self.extract(b, None) or b

    def extract(self, grp, rest, tail=False, before=()):
        fn = self.stack[-1]
        if len(grp) < 1 or len(grp) == 1 and not has(grp[0], ast.Call):
            return None
        if len(grp) == 1 and isinstance(grp[0], (ast.Return, ast.Expr, ast.Pass, ast.Raise)):
            return None
        nodes = [n for s in grp for n in [s] + list(walk_own(s))]
        for n in nodes:
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.NamedExpr)):
                return None
            if isinstance(n, ast.Return) and not tail:
                return None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('super', 'locals', 'sys'):
                return None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('exc_info', 'exception', 'currentframe'):
                return None
            if isinstance(n, FN + (ast.Lambda, ast.ClassDef, ast.Delete)):
                return None
        if any(isinstance(n, ast.Raise) and n.exc is None for n in nodes):
            return None
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(fn)) and tail:
            return None
        # break/continue that leave the group
        def escapes(stmts, inloop):
            for s in stmts:
                if isinstance(s, (ast.Break, ast.Continue)) and not inloop:
                    return True
                for f in ('body', 'orelse', 'finalbody'):
                    x = getattr(s, f, None)
                    if isinstance(x, list) and x and isinstance(x[0], ast.stmt) and not isinstance(s, FN):
                        if escapes(x, inloop or isinstance(s, LOOPS) and f == 'body'):
                            return True
                for h in getattr(s, 'handlers', []):
                    if escapes(h.body, inloop):
                        return True
            return False
        if escapes(grp, False):
            return None
        if any(isinstance(n, (ast.Nonlocal, ast.Global)) for n in ast.walk(fn)):
            return None
        comp = set()
        for n in nodes:
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                comp |= {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        locs = assigned(fn.body) | {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs} | {
            a.arg for a in (fn.args.vararg, fn.args.kwarg) if a}
        asg = assigned(grp) - comp
        ins = sorted((used(grp) & locs) - comp)
        # names used elsewhere in the function
        inner = set(map(id, (n for s in grp for n in ast.walk(s))))
        outside = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and id(n) not in inner}
        outs = sorted(asg & outside) if not tail else []
        d = definite(grp)
        params = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
        sure = params | definite(list(before)) | {'self'}
        loopvars = set()
        needed = []
        for i in ins:
            if i in asg:
                # first use is an assignment?
                if i in params or self.read_first(grp, i):
                    needed.append(i)
            else:
                needed.append(i)
        for o in outs:
            if o not in d and o not in needed:
                return None
        if any(x.startswith('__') for x in needed):
            return None
        self.n += 1
        hn = '_extracted_%s_%d' % (fn.name.strip('_'), self.n)
        is_async = any(isinstance(n, (ast.Await, ast.AsyncFor, ast.AsyncWith)) for n in nodes) or any(
            isinstance(n, ast.comprehension) and n.is_async for n in nodes)
        meth = self.methods and 'self' in params and fn.args.args and fn.args.args[0].arg == 'self'
        if self.methods and not meth:
            return None
        ps = [p for p in needed if p != 'self']
        if meth or 'self' in needed:
            ps = ['self'] + ps
        body = list(grp)
        if outs:
            body = body + [ast.Return(name(outs[0]) if len(outs) == 1 else ast.Tuple([name(o) for o in outs], ast.Load()))]
        cls = ast.AsyncFunctionDef if is_async else ast.FunctionDef
        h = cls(hn, ast.arguments([], [ast.arg(p) for p in ps], None, [], [], None, []), body, [])
        h.type_params = []
        if not self.pending:
            self.pending = []
        self.pending.append(h)
        call = ast.Call(ast.Attribute(name('self'), hn, ast.Load()) if meth else name(hn), [name(p) for p in (ps[1:] if meth else ps)], [])
        if is_async:
            call = ast.Await(call)
        if tail and any(isinstance(n, ast.Return) for n in nodes):
            return [ast.Return(call)]
        if outs:
            t = name(outs[0], ast.Store()) if len(outs) == 1 else ast.Tuple([name(o, ast.Store()) for o in outs], ast.Store())
            return [ast.Assign([t], call)]
        return [ast.Expr(call)]

    def read_first(self, grp, v):
        for s in grp:
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                if v in {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)}:
                    return True
                tg = s.targets if isinstance(s, ast.Assign) else [s.target]
                if any(isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Store) for t in tg for n in ast.walk(t)):
                    return False
            elif isinstance(s, (ast.For, ast.AsyncFor)):
                if v in {n.id for n in ast.walk(s.iter) if isinstance(n, ast.Name)}:
                    return True
                return any(isinstance(n, ast.Name) and n.id == v for n in ast.walk(s)) and not any(
                    isinstance(n, ast.Name) and n.id == v for n in ast.walk(s.target)) and self.read_first(s.body, v)
            elif isinstance(s, (ast.With, ast.AsyncWith)):
                if any(v in {n.id for n in ast.walk(i.context_expr) if isinstance(n, ast.Name)} for i in s.items):
                    return True
                if any(i.optional_vars is not None and v in {n.id for n in ast.walk(i.optional_vars) if isinstance(n, ast.Name)} for i in s.items):
                    return False
                if any(isinstance(n, ast.Name) and n.id == v for n in ast.walk(s)):
                    return self.read_first(s.body, v)
            elif any(isinstance(n, ast.Name) and n.id == v for n in ast.walk(s)):
                return True
        return False


class ExtractMod(Extract):
    as_method = False


class TmpAttr(Blocks):
    '''Inner calls of simple statements to temporaries: a = f(g(x)).h -> t = g(x); ...'''
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Subscript):
            c = s.value.value
            if isinstance(c, (ast.Call, ast.Await)) and not has(c, ast.NamedExpr):
                v = self.fresh('obj')
                s.value.value = name(v)
                return [ast.Assign([name(v, ast.Store())], c), s]
        return s


class TupleMerge(Blocks):
    def block(self, b, node, f):
        r = []
        for s in b:
            if r and all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(
                    x.value, (ast.Constant, ast.Name, ast.Attribute)) for x in (s, r[-1])) and r[-1].targets[0].id not in used([ast.Expr(s.value)]):
                p = r.pop()
                r.append(ast.Assign([ast.Tuple([p.targets[0], s.targets[0]], ast.Store())], ast.Tuple([p.value, s.value], ast.Load())))
            else:
                r.append(s)
        return r


class SwapAdj(Blocks):
    '''Swap adjacent independent simple assignments.'''
    def block(self, b, node, f):
        b = list(b)
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if all(isinstance(z, ast.Assign) and len(z.targets) == 1 and isinstance(z.targets[0], ast.Name) and not has(
                    z.value, ast.Await, ast.Call, ast.NamedExpr, ast.Yield) for z in (x, y)) and x.targets[0].id not in used([y]) and y.targets[
                        0].id not in used([x]):
                b[i], b[i + 1] = y, x
                i += 2
            else:
                i += 1
        return b


class TryElse(Blocks):
    '''statement; assignments before try etc. unchanged; moves the code after a try whose handlers all leave into its else branch'''
    def block(self, b, node, f):
        for i, s in enumerate(b):
            if isinstance(s, ast.Try) and s.handlers and not s.orelse and not s.finalbody and all(leaves(h.body) for h in s.handlers) and i + 1 < len(b) \
                    and not leaves(s.body):
                s.orelse = self.block(b[i + 1:], None, None)
                return b[:i + 1]
        return b


class WhileFor(Blocks):
    '''for i in range(n) kept; for x in seq -> it = iter(seq); while with next'''
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, (ast.Name, ast.Attribute)):
            v = self.fresh('item')
            t = s.target
            return ast.For(name(v, ast.Store()), ast.Call(name('iter'), [s.iter], []), [ast.Assign([t], name(v))] + s.body, [])
        return s


class AssertIf(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Assert):
            return ast.If(neg(s.test), [ast.Raise(ast.Call(name('AssertionError'), [s.msg] if s.msg else [], []), None)], [])
        return s


class Positional(ast.NodeTransformer):
    pass


def make(cls, **kw):
    def f():
        x = cls()
        for k, v in kw.items():
            setattr(x, k, v)
        return x
    return f


T = {
    'unparse': make(Nop), 'rename': Rename, 'swapif': SwapIf, 'guardelse': GuardElse, 'elseguard': ElseGuard, 'condvar': CondVar,
    'whiletrue': WhileTrue, 'argtemps': ArgTemps, 'retvar': RetVar, 'augsplit': AugSplit, 'fortuple': ForTuple, 'percent': Percent,
    'percentf': PercentF, 'flipcmp': FlipCmp, 'splitand': SplitAnd, 'demorgan': DeMorgan, 'splitwith': SplitWith, 'log': LogEverywhere,
    'noop': NoopAssign, 'ternaryif': TernaryIf, 'ifternary': IfTernary, 'comploop': CompLoop, 'hoist': HoistStr, 'suppress': Suppress,
    'reverse': Reverse, 'tmpattr': TmpAttr, 'tuplemerge': TupleMerge, 'swapadj': SwapAdj, 'tryelse': TryElse, 'iterfor': WhileFor,
    'assertif': AssertIf,
}
for w in ('loop', 'try', 'handler', 'branch', 'with', 'head', 'tail', 'mid'):
    T['x' + w] = make(Extract, where=w)
    T['m' + w] = make(ExtractMod, where=w)


def transform(nm, src):
    tree = ast.parse(src)
    t = T[nm]()
    t.imports = set()
    t.globals = {n.id for s in tree.body for n in ast.walk(s) if isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(n, ast.Name) and
                 isinstance(n.ctx, ast.Store)}
    tree = t.visit(tree)
    new = getattr(t, 'new', [])
    k = 0
    for i, s in enumerate(tree.body):
        if isinstance(s, (ast.Import, ast.ImportFrom)) or i == 0 and isinstance(s, ast.Expr):
            k = i + 1
        elif isinstance(s, FN + (ast.ClassDef,)):
            break
    tree.body[k:k] = [ast.Import([ast.alias(i)]) for i in sorted(t.imports)]
    main = [s for s in tree.body if isinstance(s, ast.If) and '__name__' in ast.dump(s.test)]
    rest = [s for s in tree.body if s not in main]
    fns = [s for s in new if isinstance(s, FN)]
    cs = [s for s in new if not isinstance(s, FN)]
    rest[k + len(t.imports):k + len(t.imports)] = cs
    tree.body = rest + fns + main
    ast.fix_missing_locations(tree)
    return ast.unparse(tree) + '\n'


def main():
    nm, out = sys.argv[1:3]
    files = sys.argv[3:]
    if not os.path.exists(out):
        shutil.copytree('/repo', out, symlinks=True)
    for base, ds, fs in os.walk('/repo'):
        ds[:] = [d for d in ds if not d.startswith('.') and d not in ('tests', 'build', '__pycache__')]
        for f in fs:
            p = os.path.join(base, f)
            rel = os.path.relpath(p, '/repo')
            if not f.endswith('.py') or not (rel.startswith('src/s3ql') or rel.startswith('contrib/')):
                continue
            src = open(p).read()
            res = src if files and rel not in files else transform(nm, src)
            os.makedirs(os.path.dirname(os.path.join(out, rel)), exist_ok=True)
            open(os.path.join(out, rel), 'w').write(res)


if __name__ == '__main__':
    main()

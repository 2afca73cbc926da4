'''Constant folding of module-level expressions (strings, tuples, lists, dicts, comprehensions over them).'''

from __future__ import annotations

import ast


class Unknown(Exception):
    pass


STR_METHODS = {'join', 'format', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'split', 'encode', 'keys', 'values', 'items',
               'startswith', 'endswith', 'removeprefix', 'removesuffix', 'union', 'difference', 'intersection', 'copy', 'index', 'count'}
FUNCS = {'tuple': tuple, 'list': list, 'set': set, 'frozenset': frozenset, 'sorted': sorted, 'len': len, 'str': str, 'range': range,
         'dict': dict, 'int': int, 'bytes': bytes, 'min': min, 'max': max, 'sum': sum, 'zip': lambda *a: list(zip(*a)),
         'enumerate': lambda *a: list(enumerate(*a)), 'map': None, 'reversed': lambda x: list(reversed(x)), 'bool': bool, 'abs': abs}
BIN = {
    ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.Mod: lambda a, b: a % b,
    ast.BitOr: lambda a, b: a | b, ast.BitAnd: lambda a, b: a & b, ast.FloorDiv: lambda a, b: a // b, ast.Pow: lambda a, b: a ** b,
    ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b, ast.Div: lambda a, b: a / b, ast.BitXor: lambda a, b: a ^ b,
}
CMP = {
    ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b, ast.In: lambda a, b: a in b, ast.NotIn: lambda a, b: a not in b,
    ast.Lt: lambda a, b: a < b, ast.Gt: lambda a, b: a > b, ast.LtE: lambda a, b: a <= b, ast.GtE: lambda a, b: a >= b,
    ast.Is: lambda a, b: a is b, ast.IsNot: lambda a, b: a is not b,
}


def assigned(mod, name):
    '''The value expression of a module-level name assigned exactly once.'''
    found = []
    for st in mod.tree.body:
        if isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name) and t.id == name:
                    found.append(st.value)
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == name and st.value is not None:
            found.append(st.value)
        elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id == name:
            raise Unknown(name)
    if len(found) != 1:
        raise Unknown(name)
    return found[0]


def fold_name(repo, qual, depth=0):
    '''Value of a module-level constant given as dotted name.'''
    m, _, n = qual.rpartition('.')
    mod = repo.modules.get(m)
    if mod is None:
        raise Unknown(qual)
    return fold(repo, mod, assigned(mod, n), {}, depth + 1)


def fold(repo, mod, node, env=None, depth=0):
    env = env or {}
    if depth > 40:
        raise Unknown('depth')

    def f(n, e=env):
        return fold(repo, mod, n, e, depth + 1)

    if isinstance(node, ast.Constant):
        return node.value
    if isinstance(node, ast.Name):
        if node.id in env:
            return env[node.id]
        if node.id in mod.imports:
            return fold_name(repo, mod.imports[node.id], depth)
        return fold(repo, mod, assigned(mod, node.id), {}, depth + 1)
    if isinstance(node, (ast.Tuple, ast.List, ast.Set)):
        out = []
        for x in node.elts:
            if isinstance(x, ast.Starred):
                out.extend(f(x.value))
            else:
                out.append(f(x))
        return tuple(out) if isinstance(node, ast.Tuple) else out if isinstance(node, ast.List) else set(out)
    if isinstance(node, ast.Dict):
        d = {}
        for k, v in zip(node.keys, node.values):
            if k is None:
                d.update(f(v))
            else:
                d[f(k)] = f(v)
        return d
    try:
        if isinstance(node, ast.BinOp) and type(node.op) in BIN:
            return BIN[type(node.op)](f(node.left), f(node.right))
        if isinstance(node, ast.UnaryOp):
            v = f(node.operand)
            return -v if isinstance(node.op, ast.USub) else not v if isinstance(node.op, ast.Not) else v
        if isinstance(node, ast.BoolOp):
            vals = [f(v) for v in node.values]
            r = vals[0]
            for v in vals[1:]:
                r = (r and v) if isinstance(node.op, ast.And) else (r or v)
            return r
        if isinstance(node, ast.IfExp):
            return f(node.body) if f(node.test) else f(node.orelse)
        if isinstance(node, ast.Compare):
            left = f(node.left)
            for op, c in zip(node.ops, node.comparators):
                r = f(c)
                if not CMP[type(op)](left, r):
                    return False
                left = r
            return True
        if isinstance(node, ast.Subscript):
            v = f(node.value)
            s = node.slice
            if isinstance(s, ast.Slice):
                return v[slice(*(None if x is None else f(x) for x in (s.lower, s.upper, s.step)))]
            return v[f(s)]
        if isinstance(node, ast.JoinedStr):
            out = ''
            for x in node.values:
                if isinstance(x, ast.Constant):
                    out += x.value
                elif x.format_spec is None and x.conversion == -1:
                    out += str(f(x.value))
                else:
                    raise Unknown('format')
            return out
        if isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            out = []

            def go(i, e):
                if i == len(node.generators):
                    out.append((f(node.key, e), f(node.value, e)) if isinstance(node, ast.DictComp) else f(node.elt, e))
                    return
                g = node.generators[i]
                for x in f(g.iter, e):
                    e2 = dict(e)
                    bind(g.target, x, e2)
                    if all(f(c, e2) for c in g.ifs):
                        go(i + 1, e2)

            go(0, dict(env))
            return dict(out) if isinstance(node, ast.DictComp) else set(out) if isinstance(node, ast.SetComp) else out
        if isinstance(node, ast.Call):
            if isinstance(node.func, ast.Name) and FUNCS.get(node.func.id):
                kw = {k.arg: f(k.value) for k in node.keywords}
                return FUNCS[node.func.id](*[f(a) for a in node.args], **kw)
            if isinstance(node.func, ast.Attribute) and node.func.attr in STR_METHODS:
                kw = {k.arg: f(k.value) for k in node.keywords}
                return getattr(f(node.func.value), node.func.attr)(*[f(a) for a in node.args], **kw)
    except Unknown:
        raise
    except Exception as exc:
        raise Unknown(str(exc))
    raise Unknown(type(node).__name__)


def bind(t, v, env):
    if isinstance(t, ast.Name):
        env[t.id] = v
    elif isinstance(t, (ast.Tuple, ast.List)):
        for a, b in zip(t.elts, v):
            bind(a, b, env)
    else:
        raise Unknown('target')


def fold_term(repo, t):
    '''Value of an interpreter term made of constants, formatted strings and module-level constants.'''
    if t[0] == 'const':
        return t[1]
    if t[0] == 'global':
        return fold_name(repo, t[1])
    if t[0] == 'tuple':
        return tuple(fold_term(repo, x) for x in t[1:])
    if t[0] == 'fmt':
        vals = [fold_term(repo, x) for x in t[2]]
        if t[1].count('{}') != len(vals):
            raise Unknown('format')
        parts = t[1].split('{}')
        out = parts[0]
        for v, p in zip(vals, parts[1:]):
            out += str(v) + p
        return out
    raise Unknown(t[0])

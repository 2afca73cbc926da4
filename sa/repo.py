'''Source model of /repo: modules, classes, functions, imports, constants.

Everything is read from the current working tree with the `ast` module; nothing from /repo is ever
imported or executed.
'''

from __future__ import annotations

import ast
import builtins
import hashlib
import os

REPO = os.environ.get('VERIF_REPO', '/repo')


class AnalysisError(Exception):
    '''The analysis could not establish what it needs (vanished anchor, unparsable file, ...).'''


class FuncInfo:
    def __init__(self, mod, cls, name, node, parent=None):
        self.mod = mod
        self.cls = cls
        self.name = name
        self.node = node
        self.parent = parent
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.decorators = [decorator_name(d) for d in getattr(node, 'decorator_list', [])]
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))

    @property
    def qual(self):
        base = self.mod.name
        if self.cls is not None:
            base += '.' + self.cls.name
        return base + '.' + self.name

    @property
    def short(self):
        return (self.cls.name + '.' if self.cls else '') + self.name

    @property
    def is_static(self):
        return 'staticmethod' in self.decorators

    @property
    def is_classmethod(self):
        return 'classmethod' in self.decorators

    @property
    def is_property(self):
        return 'property' in self.decorators or 'cached_property' in self.decorators

    @property
    def is_cm(self):
        return bool({'contextmanager', 'asynccontextmanager'} & set(self.decorators))

    def loc(self, node=None):
        n = node if node is not None else self.node
        return '%s:%d' % (self.mod.rel, getattr(n, 'lineno', 0))

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def annotation(self, pname):
        a = self.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == pname:
                return x.annotation
        return None

    def __repr__(self):
        return '<%s>' % self.qual


class ClassInfo:
    def __init__(self, mod, name, node):
        self.mod = mod
        self.name = name
        self.node = node
        self.methods = {}
        self.consts = {}
        self.ann = {}
        self.base_exprs = [b for b in node.bases]
        self._attr_types = None

    @property
    def qual(self):
        return self.mod.name + '.' + self.name

    def __repr__(self):
        return '<class %s>' % self.qual


class Module:
    def __init__(self, repo, name, path, rel, src=None):
        self.repo = repo
        self.name = name
        self.path = path
        self.rel = rel
        if src is None:
            with open(path, 'rb') as fh:
                src = fh.read()
        self.src = src
        try:
            self.tree = ast.parse(self.src, filename=path)
        except SyntaxError as exc:
            raise AnalysisError('cannot parse %s: %s' % (rel, exc))
        self.imports = {}
        self.functions = {}
        self.classes = {}
        self.consts = {}
        self.assigns = {}
        self._index()

    def _index(self):
        pkg = self.name if self.path.endswith('__init__.py') else self.name.rpartition('.')[0]
        for node in ast.walk(self.tree):
            if isinstance(node, ast.Import):
                for a in node.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(node, ast.ImportFrom):
                base = node.module or ''
                if node.level:
                    p = pkg.split('.')
                    p = p[: len(p) - (node.level - 1)]
                    base = '.'.join(p + ([node.module] if node.module else []))
                for a in node.names:
                    self.imports[a.asname or a.name] = base + '.' + a.name
        for node in self._toplevel(self.tree.body):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if 'overload' in [decorator_name(d) for d in node.decorator_list]:
                    continue
                self.functions[node.name] = FuncInfo(self, None, node.name, node)
            elif isinstance(node, ast.ClassDef):
                self._index_class(node)
            elif isinstance(node, ast.Assign):
                for t in node.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = node.value
                        v = literal(node.value)
                        if v is not NOLIT:
                            self.consts[t.id] = v
            elif isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name):
                if node.value is not None:
                    self.assigns[node.target.id] = node.value
                    v = literal(node.value)
                    if v is not NOLIT:
                        self.consts[node.target.id] = v

    def _toplevel(self, body):
        for n in body:
            yield n
            if isinstance(n, (ast.If, ast.Try)):
                yield from self._toplevel(n.body)
                yield from self._toplevel(n.orelse)
                for h in getattr(n, 'handlers', []):
                    yield from self._toplevel(h.body)

    def _index_class(self, node):
        ci = ClassInfo(self, node.name, node)
        self.classes[node.name] = ci
        for sub in self._toplevel(node.body):
            if isinstance(sub, (ast.FunctionDef, ast.AsyncFunctionDef)):
                decs = [decorator_name(d) for d in sub.decorator_list]
                if 'overload' in decs:
                    continue
                name = sub.name
                if 'setter' in decs:
                    name = name + '.setter'
                ci.methods[name] = FuncInfo(self, ci, name, sub)
            elif isinstance(sub, ast.Assign):
                for t in sub.targets:
                    if isinstance(t, ast.Name):
                        ci.consts[t.id] = sub.value
            elif isinstance(sub, ast.AnnAssign) and isinstance(sub.target, ast.Name):
                ci.ann[sub.target.id] = sub.annotation
                if sub.value is not None:
                    ci.consts[sub.target.id] = sub.value

    def resolve(self, name):
        '''Dotted name that *name* denotes at module level.'''
        if name in self.functions or name in self.classes or name in self.assigns:
            return self.name + '.' + name
        if name in self.imports:
            return self.repo.canonical(self.imports[name])
        if hasattr(builtins, name):
            return 'builtins.' + name
        return self.name + '.' + name


NOLIT = object()


def literal(node):
    try:
        return ast.literal_eval(node)
    except Exception:
        return NOLIT


def decorator_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Attribute):
        return d.attr
    if isinstance(d, ast.Name):
        return d.id
    return '?'


def walk_own(node):
    '''Walk a function body without descending into nested functions/classes/lambdas.'''
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Repo:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.files = []
        self._canon = {}
        src = os.path.join(self.root, 'src', 's3ql')
        if not os.path.isdir(src):
            raise AnalysisError('no source tree at %s' % src)
        for dirpath, dirnames, filenames in sorted(os.walk(src)):
            dirnames[:] = sorted(d for d in dirnames if d != '__pycache__')
            for fn in sorted(filenames):
                if not fn.endswith('.py'):
                    continue
                path = os.path.join(dirpath, fn)
                rel = os.path.relpath(path, self.root)
                mod = os.path.relpath(path, os.path.join(self.root, 'src'))[:-3].replace('/', '.')
                if mod.endswith('.__init__'):
                    mod = mod[: -len('.__init__')]
                self.modules[mod] = Module(self, mod, path, rel)
        cdir = os.path.join(self.root, 'contrib')
        if os.path.isdir(cdir):
            for fn in sorted(os.listdir(cdir)):
                if fn.endswith('.py'):
                    mod = 'contrib.' + fn[:-3]
                    self.modules[mod] = Module(self, mod, os.path.join(cdir, fn), 'contrib/' + fn)
        self._subclasses = None
        from .baseline import known_functions
        from .inline import inline_helpers
        from .normal import normalize

        inline_helpers(self, known_functions())
        normalize(self, known_functions())
        from .fold import Unknown, fold

        for m in self.modules.values():
            for name, node in m.assigns.items():
                if name not in m.consts and not isinstance(node, ast.Call) or isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
                    try:
                        v = fold(self, m, node)
                    except (Unknown, RecursionError):
                        continue
                    if isinstance(v, (str, bytes, int, tuple)):
                        m.consts[name] = v

    # -- name resolution -------------------------------------------------------------------
    def canonical(self, dotted, depth=0):
        '''Follow re-exports so that each repo entity has one dotted name.'''
        if dotted in self._canon:
            return self._canon[dotted]
        res = dotted
        modname, _, attr = dotted.rpartition('.')
        if dotted in self.modules or depth > 8:
            res = dotted
        elif modname in self.modules:
            m = self.modules[modname]
            if attr in m.functions or attr in m.classes or attr in m.assigns:
                res = dotted
            elif attr in m.imports and m.imports[attr] != dotted:
                res = self.canonical(m.imports[attr], depth + 1)
        self._canon[dotted] = res
        return res

    def module(self, name):
        m = self.modules.get(name) or self.modules.get('s3ql.' + name)
        if m is None:
            raise AnalysisError('module %s not found' % name)
        return m

    def entity(self, dotted):
        '''FuncInfo / ClassInfo for a canonical dotted name, or None.'''
        dotted = self.canonical(dotted)
        modname, _, attr = dotted.rpartition('.')
        m = self.modules.get(modname)
        if m is not None:
            return m.functions.get(attr) or m.classes.get(attr)
        m2, _, cls = modname.rpartition('.')
        m = self.modules.get(m2)
        if m is not None and cls in m.classes:
            return self.lookup_method(m.classes[cls], attr)
        return None

    def func(self, dotted, optional=False):
        e = self.entity(dotted if dotted.startswith(('s3ql.', 'contrib.')) else 's3ql.' + dotted)
        if not isinstance(e, FuncInfo):
            if optional:
                return None
            raise AnalysisError('function %s not found' % dotted)
        return e

    def cls(self, dotted, optional=False):
        e = self.entity(dotted if dotted.startswith(('s3ql.', 'contrib.')) else 's3ql.' + dotted)
        if not isinstance(e, ClassInfo):
            if optional:
                return None
            raise AnalysisError('class %s not found' % dotted)
        return e

    def bases(self, ci):
        out = []
        for b in ci.base_exprs:
            if isinstance(b, ast.Subscript):
                b = b.value
            d = self.dotted_expr(ci.mod, b)
            if d:
                e = self.entity(d)
                if isinstance(e, ClassInfo):
                    out.append(e)
        return out

    def mro(self, ci):
        out, todo = [], [ci]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            todo.extend(self.bases(c))
        return out

    def lookup_method(self, ci, name):
        for c in self.mro(ci):
            if name in c.methods:
                return c.methods[name]
        return None

    def lookup_const(self, ci, name):
        for c in self.mro(ci):
            if name in c.consts:
                return c, c.consts[name]
        return None

    def dotted_expr(self, mod, node):
        parts = []
        while isinstance(node, ast.Attribute):
            parts.append(node.attr)
            node = node.value
        if not isinstance(node, ast.Name):
            return None
        return self.canonical('.'.join([mod.resolve(node.id)] + parts[::-1]))

    def subclasses(self, ci):
        '''Transitive repo subclasses of *ci* (including itself).'''
        out = [ci]
        for m in self.modules.values():
            for c in m.classes.values():
                if c is not ci and ci in self.mro(c):
                    out.append(c)
        return out

    def all_functions(self):
        for m in self.modules.values():
            yield from m.functions.values()
            for c in m.classes.values():
                yield from c.methods.values()

    # -- types -----------------------------------------------------------------------------
    def ann_class(self, mod, ann):
        '''Repo class named by an annotation (Optional/union/string forms included).'''
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(ann, ast.BinOp):
            return self.ann_class(mod, ann.left) or self.ann_class(mod, ann.right)
        if isinstance(ann, ast.Subscript):
            d = self.dotted_expr(mod, ann.value) or ''
            if d.endswith('Optional'):
                return self.ann_class(mod, ann.slice)
            e = self.entity(d) if d else None
            return e if isinstance(e, ClassInfo) else None
        if isinstance(ann, (ast.Name, ast.Attribute)):
            d = self.dotted_expr(mod, ann)
            e = self.entity(d) if d else None
            return e if isinstance(e, ClassInfo) else None
        return None

    def attr_class(self, ci, name):
        for c in self.mro(ci):
            if name in c.ann:
                r = self.ann_class(c.mod, c.ann[name])
                if r:
                    return r
            if c._attr_types is None:
                c._attr_types = {}
                for m in c.methods.values():
                    for n in walk_own(m.node):
                        tgt = val = ann = None
                        if isinstance(n, ast.Assign) and len(n.targets) == 1:
                            tgt, val = n.targets[0], n.value
                        elif isinstance(n, ast.AnnAssign):
                            tgt, val, ann = n.target, n.value, n.annotation
                        if not (
                            isinstance(tgt, ast.Attribute)
                            and isinstance(tgt.value, ast.Name)
                            and tgt.value.id == 'self'
                        ):
                            continue
                        r = self.ann_class(c.mod, ann) if ann is not None else None
                        if r is None and isinstance(val, ast.Call):
                            d = self.dotted_expr(c.mod, val.func)
                            e = self.entity(d) if d else None
                            if isinstance(e, ClassInfo):
                                r = e
                        if r is None and isinstance(val, ast.Name):
                            r = self.ann_class(c.mod, m.annotation(val.id))
                        if r is not None:
                            c._attr_types.setdefault(tgt.attr, r)
            if name in c._attr_types:
                return c._attr_types[name]
        return None

    def digest(self, mods=None):
        h = hashlib.sha256()
        for n in sorted(mods or self.modules):
            h.update(n.encode())
            h.update(self.module(n).src)
        return h.hexdigest()[:16]

'''Path-sensitive, interprocedural abstract interpreter over the syntax tree.

Nothing from /repo is executed.  Values are symbolic terms (hashable tuples), conditions become
facts over terms, calls into the repository are followed (inlined) unless a rule lists them as
opaque, and every relevant operation is passed to a monitor as an Event.  Each loop is taken zero,
one or two times (loops over constant tuples are unrolled exactly); states with the same control
point, environment and monitor state are merged (their facts are intersected).
'''

from __future__ import annotations

import ast
import builtins as _bi
import itertools

from .repo import AnalysisError, ClassInfo, FuncInfo, decorator_name, literal, NOLIT, walk_own

NONE = ('const', None, 'NoneType')
TRUE = ('const', True, 'bool')
FALSE = ('const', False, 'bool')


def const(v):
    try:
        hash(v)
    except TypeError:
        return ('unk', repr(v)[:60])
    return ('const', v, type(v).__name__)


def is_const(t):
    return isinstance(t, tuple) and t and t[0] == 'const'


def cval(t):
    return t[1] if is_const(t) else NOLIT


def mentions(t, pred):
    if not isinstance(t, tuple) or not t:
        return False
    if isinstance(t[0], str):
        if pred(t):
            return True
        if t[0] == 'const':
            return False
    for x in t:
        if isinstance(x, tuple) and mentions(x, pred):
            return True
    return False


def mentions_live(t, pred):
    '''As mentions(), not looking into the arguments of calls whose result is already known.'''
    if not isinstance(t, tuple) or not t:
        return False
    if isinstance(t[0], str):
        if pred(t):
            return True
        if t[0] in ('const', 'res', 'new', 'exc'):
            return False
    for x in t:
        if isinstance(x, tuple) and mentions_live(x, pred):
            return True
    return False


def subterms(t):
    if isinstance(t, tuple) and t:
        if isinstance(t[0], str):
            yield t
            if t[0] == 'const':
                return
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def attr_name(t):
    '''Last attribute name of an attribute term.'''
    return t[2] if isinstance(t, tuple) and t and t[0] == 'attr' else None


def show(t, depth=0):
    '''Readable form of a term.'''
    if not isinstance(t, tuple) or not t:
        return str(t)
    if depth > 6:
        return '...'
    k = t[0]
    s = lambda x: show(x, depth + 1)
    if k == 'const':
        r = repr(t[1])
        return r if len(r) < 80 else r[:77] + '...'
    if k == 'self':
        return 'self'
    if k == 'param':
        return t[1]
    if k == 'global':
        return t[1].rpartition('.')[2]
    if k == 'attr':
        return s(t[1]) + '.' + t[2]
    if k == 'res':
        return t[1].rpartition('.')[2] + '()'
    if k == 'item':
        return '%s[%s]' % (s(t[1]), s(t[2]) if isinstance(t[2], tuple) else t[2])
    if k == 'elem':
        return 'each(%s)' % s(t[1])
    if k == 'fmt':
        return repr(t[1]) + '%(' + ', '.join(s(a) for a in t[2]) + ')'
    if k == 'tuple':
        return '(' + ', '.join(s(a) for a in t[1:]) + ')'
    if k == 'pure':
        return '%s(%s)' % (t[1], ', '.join(s(a) for a in t[2]))
    if k == 'func':
        return t[1].rpartition('.')[2]
    if k == 'bound':
        return s(t[1]) + '.' + t[2]
    if k == 'exc':
        return 'exception %s' % t[1]
    if k in ('new', 'obj'):
        return '%s#%s' % (t[1].rpartition('.')[2], t[2] if not isinstance(t[2], tuple) else '')
    if k == 'not':
        return 'not ' + s(t[1])
    if k == 'cmp':
        return ('' if t[2] else 'not ') + s(t[1])
    if k in ('eq', 'lt', 'in', 'isnone', 'true', 'isinst', 'is'):
        return k + '(' + ', '.join(s(a) for a in t[1:]) + ')'
    return k


class Event:
    __slots__ = (
        'kind', 'name', 'qual', 'recv', 'args', 'kw', 'res', 'node', 'fi', 'awaited', 'thread',
        'extra', 'stack', 'target',
    )

    def __init__(self, kind, node, fi, **kw):
        self.kind = kind
        self.node = node
        self.fi = fi
        self.name = self.qual = ''
        self.recv = self.res = self.extra = self.target = None
        self.args = ()
        self.kw = {}
        self.awaited = self.thread = False
        self.stack = ()
        for k, v in kw.items():
            setattr(self, k, v)

    @property
    def loc(self):
        return self.fi.loc(self.node)

    def arg(self, i, name=None, default=None):
        '''Argument by position or keyword (parameter names resolved for repo callees).'''
        if i is not None and i < len(self.args):
            return self.args[i]
        if name is not None and name in self.kw:
            return self.kw[name]
        return default

    def bind(self):
        '''name -> term mapping when the callee is a repo function.'''
        if not isinstance(self.target, FuncInfo):
            return dict(self.kw)
        ps = self.target.params()
        if self.target.cls is not None and not self.target.is_static:
            ps = ps[1:]
        out = dict(zip(ps, self.args))
        out.update(self.kw)
        return out

    def __repr__(self):
        a = ', '.join(
            [show(x) for x in self.args] + ['%s=%s' % (k, show(v)) for k, v in self.kw.items()]
        )
        r = (show(self.recv) + '.') if self.recv is not None else ''
        return '<%s %s%s(%s) @%s>' % (self.kind, r, self.name, a, self.loc)


# names of the same exception
ALIASES = {n: 'builtins.OSError' for n in ('builtins.IOError', 'builtins.EnvironmentError', 'os.error', 'socket.error', 'select.error')}
ALIASES['socket.timeout'] = 'builtins.TimeoutError'
ALIASES['_lzma.LZMAError'] = 'lzma.LZMAError'

# operations whose result is never None
NOT_NONE = {'Add', 'Sub', 'Mult', 'FloorDiv', 'Mod', 'len', 'slice', 'repr', 'USub'}


class State:
    __slots__ = ('frames', 'cur', 'heap', 'facts', 'auto', 'trace', 'epoch', 'exc')

    def copy(self):
        s = State.__new__(State)
        s.frames = self.frames
        s.cur = self.cur
        s.heap = self.heap
        s.facts = self.facts
        s.auto = self.auto
        s.trace = self.trace
        s.epoch = self.epoch
        s.exc = self.exc
        return s

    # environment ---------------------------------------------------------------------------
    def setvar(self, frame, name, val):
        f = dict(self.frames)
        e = dict(f[frame])
        e[name] = val
        f[frame] = e
        self.frames = f

    def delvar(self, frame, name):
        if name in self.frames[frame]:
            f = dict(self.frames)
            e = dict(f[frame])
            del e[name]
            f[frame] = e
            self.frames = f

    def setheap(self, base, key, val):
        h = dict(self.heap)
        h[(base, key)] = val
        self.heap = h

    def setfact(self, atom, val):
        f = dict(self.facts)
        f[atom] = val
        self.facts = f

    # queries -------------------------------------------------------------------------------
    def truth(self, atom):
        '''True/False/None for an atom under the current facts.'''
        k = atom[0]
        if k == 'true':
            t = atom[1]
            tv = const_truth(t)
            if tv is not None:
                return tv
            if t[0] == 'cmp':
                r = self.truth(t[1])
                return None if r is None else (r == t[2])
            if t[0] == 'not':
                r = self.truth(('true', t[1]))
                return None if r is None else not r
            if atom in self.facts:
                return self.facts[atom]
            if self.facts.get(('isnone', t)) is True:
                return False
            for a, v in self.facts.items():
                if v and a[0] == 'eq' and t in a[1:]:
                    o = a[2] if a[1] == t else a[1]
                    if is_const(o):
                        return bool(o[1])
            return None
        if k == 'isnone':
            t = atom[1]
            if is_const(t):
                return t[1] is None
            if t[0] in ('new', 'obj', 'tuple', 'func', 'closure', 'fmt', 'cls', 'self', 'cmp',
                        'partial', 'bound', 'exc'):
                return False
            if t[0] == 'pure' and t[1] in NOT_NONE:
                return False
            if t[0] == 'global' and t[1].startswith('errno.'):
                return False
            if atom in self.facts:
                return self.facts[atom]
            if self.facts.get(('true', t)) is True:
                return False
            for a, v in self.facts.items():
                if v and a[0] == 'eq' and t in a[1:]:
                    o = a[2] if a[1] == t else a[1]
                    if is_const(o):
                        return o[1] is None
            return None
        if k == 'eq':
            a, b = atom[1:]
            if a == b:
                return True
            if is_const(a) and is_const(b):
                return a[1] == b[1]
            if atom in self.facts:
                return self.facts[atom]
            for x, c in ((a, b), (b, a)):
                if is_const(c):
                    if self.facts.get(('isnone', x)) is True:
                        return c[1] is None
                    tv = self.facts.get(('true', x))
                    if tv is True and not c[1]:
                        return False
                    if tv is False and c[1]:
                        return False
                    for f, v in self.facts.items():
                        if v and f[0] == 'eq' and x in f[1:]:
                            o = f[2] if f[1] == x else f[1]
                            if is_const(o):
                                return o[1] == c[1]
            return None
        if k == 'is':
            if atom[1] == atom[2] and atom[1][0] != 'unk':
                return True
        if k == 'lt':
            a, b = atom[1:]
            if is_const(a) and is_const(b):
                try:
                    return a[1] < b[1]
                except TypeError:
                    return None
            if a == b:
                return False
            r = self.facts.get(atom)
            if r is None and self.facts.get(('lt', b, a)) is True:
                return False
            if r is None and self.facts.get(mk_eq(a, b)) is True:
                return False
            return r
        if k == 'in':
            a, b = atom[1:]
            if b[0] == 'tuple' and is_const(a) and all(is_const(x) for x in b[1:]):
                return any(x[1] == a[1] for x in b[1:])
            if is_const(a) and is_const(b):
                try:
                    return a[1] in b[1]
                except TypeError:
                    return None
        return self.facts.get(atom)


def const_truth(t):
    k = t[0]
    if k == 'const':
        return bool(t[1])
    if k == 'tuple':
        return len(t) > 1
    if k in ('func', 'closure', 'cls', 'exc', 'bound', 'partial', 'self'):
        return True
    if k == 'new' and t[1] in TRUTHY:
        return True
    return None


TRUTHY = set()  # classes without __len__/__bool__


def term_size(t):
    n = 1
    for x in t:
        if isinstance(x, tuple):
            n += term_size(x)
            if n > 200:
                return n
    return n


def mk_eq(a, b):
    return ('eq',) + tuple(sorted((a, b), key=repr))


class Outcome:
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val=None):
        self.kind = kind  # next, break, continue, return, raise
        self.st = st
        self.val = val


class Monitor:
    '''Default monitor: records the events that keep() labels.'''

    def init(self):
        return ()

    def keep(self, ev, st, eng):
        return None

    def step(self, auto, ev, st, eng):
        lab = self.keep(ev, st, eng)
        return auto if lab is None else auto + (lab,)


# functions without effects that only list things; their results are analysed where it matters (checks/cache2.py)
LISTERS = frozenset({'BlockCache._existing_blocks'})


class Policy:
    '''What is inlined, what may raise.'''

    max_depth = 7
    max_states = 120
    max_returns = 48
    loop_iters = 2
    while_iters = None  # different bound for while loops
    widen = None  # iteration of a while loop from which on the variables it computes from themselves are unknown
    inline_modules = None  # set of module names; None = module of the entry point
    opaque = frozenset()  # qualified names / 'Class.method' never inlined
    force_inline = frozenset()
    raise_default = ()  # exceptions forked at opaque calls
    cancel_at_await = False
    enter_raises = False  # ask raises() also when an object (not a call) is entered with async with

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def inline(self, fi, eng):
        if fi.qual in self.opaque or fi.short in self.opaque or fi.name in self.opaque:
            return False
        if fi.short in LISTERS:
            return False
        if fi.qual in self.force_inline or fi.short in self.force_inline:
            return True
        mods = self.inline_modules
        if mods is None:
            mods = {eng.entry.mod.name}
        if fi.mod.name in mods:
            return True
        from .baseline import known_functions

        return fi.qual not in known_functions()

    def raises(self, ev, eng):
        '''Exception class names that the opaque call *ev* may raise.'''
        return self.raise_default


NO_RAISE_NAMES = {
    'debug', 'info', 'warning', 'error', 'exception', 'critical', 'append', 'appendleft', 'items',
    'keys', 'values', 'time', 'time_ns', 'monotonic', 'perf_counter', 'getLogger', 'len', 'Event',
    'isinstance', 'str', 'repr', 'bool', 'id', 'hasattr', 'callable', 'add', 'discard', 'setdefault',
    'update', 'startswith', 'endswith', 'strip', 'lower', 'upper', 'lstrip', 'rstrip', 'format',
    'join', 'partition', 'rpartition', 'split', 'print', 'set', 'dict', 'list', 'tuple', 'min', 'max',
    'isEnabledFor', 'is_set', 'copy', 'clear', 'hexdigest', 'digest', 'sorted', 'range', 'enumerate',
    'zip', 'getEffectiveLevel', 'addHandler', 'locked', 'hex', 'current_time', 'current_trio_token',
    'open_memory_channel', 'CancelScope', 'cancel', 'Lock', 'Condition', 'Semaphore',
}

PURE_BUILTINS = {
    'len', 'int', 'str', 'bool', 'min', 'max', 'abs', 'float', 'bytes', 'round', 'hex', 'tuple', 'repr',
    'sorted', 'set', 'frozenset', 'sum', 'isinstance', 'bytearray', 'memoryview', 'any', 'all', 'range',
    'enumerate', 'zip', 'list', 'ord', 'chr', 'id', 'type', 'divmod', 'callable', 'hasattr', 'reversed',
}

SQL_METHODS = {
    'execute', 'rowid', 'get_val', 'get_row', 'has_val', 'query', 'execute_batched', 'changes', 'row_exists',
}

MUTATING = {
    'append', 'add', 'remove', 'discard', 'pop', 'popitem', 'clear', 'update', 'extend', 'insert',
    'setdefault', 'move_to_end', 'appendleft', 'popleft', 'sort', 'reverse',
}


def effects(repo, fi):
    '''Names of the attributes a function may store to (transitively, resolving calls by name), with '[]' for
    changes of container contents; None if too much is reachable to say.'''
    cache = repo.__dict__.setdefault('_effects', {})
    if fi.qual in cache:
        return cache[fi.qual]
    index = repo.__dict__.get('_byname')
    if index is None:
        index = {}
        for m in repo.modules.values():
            for f in m.functions.values():
                index.setdefault(f.name, []).append(f)
            for c in m.classes.values():
                for f in c.methods.values():
                    index.setdefault(f.name, []).append(f)
        repo._byname = index
    out = set()
    seen = {fi.qual}
    todo = [fi]
    res = out
    while todo:
        f = todo.pop()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.attr)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add('[]')
            elif isinstance(n, (ast.Global, ast.Nonlocal, ast.Await)):
                res = None
            elif isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                if nm is None:
                    res = None
                    continue
                if nm in MUTATING:
                    out.add('[]')
                for g in index.get(nm, ()):
                    if g.qual not in seen:
                        seen.add(g.qual)
                        todo.append(g)
        if len(seen) > 60 or res is None:
            res = None
            break
    cache[fi.qual] = None if res is None else frozenset(out)
    return cache[fi.qual]


class Engine:
    def __init__(self, repo, policy=None, monitor=None):
        self.repo = repo
        self.policy = policy or Policy()
        self.mon = monitor or Monitor()
        self.entry = None
        self.stack = []  # FuncInfo / label stack
        self.ctx = ()
        self.sinks = []
        self.nframe = itertools.count(1)
        self.stats = {'functions': set(), 'events': 0, 'paths': 0, 'calls': 0, 'merged': 0}
        self.yield_cb = []
        self.lastuse = {}
        self._ids = {}
        self.steps = 0
        self.max_steps = 3_000_000
        self.closures = {}
        self.findings = []
        self.frame_fi = {}
        self.types = {}

    # -- entry points -----------------------------------------------------------------------
    def run(self, fi, bind=None, selfterm=None, facts=None, heap=None, auto=None):
        '''Run *fi* with symbolic arguments; returns list of Outcomes (return/raise).'''
        self.entry = fi
        st = State()
        st.frames = {}
        st.cur = None
        st.heap = dict(heap or {})
        st.facts = dict(facts or {})
        st.auto = self.mon.init() if auto is None else auto
        st.trace = None
        st.epoch = 0
        st.exc = None
        args = {}
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if fi.cls is not None and not fi.is_static and names:
            args[names[0]] = (
                selfterm or (('cls', fi.cls.qual) if fi.is_classmethod else ('self', fi.cls.qual))
            )
            names = names[1:]
        for n in names:
            args[n] = ('param', n, fi.qual)
        if a.vararg:
            args[a.vararg.arg] = ('param', '*' + a.vararg.arg, fi.qual)
        if a.kwarg:
            args[a.kwarg.arg] = ('param', '**' + a.kwarg.arg, fi.qual)
        args.update(bind or {})
        outs = self._exec_function(fi, args, st, None)
        self.stats['paths'] += len(outs)
        return outs

    # -- helpers ----------------------------------------------------------------------------
    def nid(self, node, extra=0):
        key = (id(node), self.ctx, extra)
        r = self._ids.get(key)
        if r is None:
            r = self._ids[key] = len(self._ids) + 1
        return r

    def emit(self, st, ev):
        ev.stack = tuple(f for f in self.stack)
        self.stats['events'] += 1
        new = self.mon.step(st.auto, ev, st, self)
        if new != st.auto:
            st.auto = new
            st.trace = (st.trace, ev)
        return st

    @property
    def fi(self):
        return self.stack[-1]

    def trace_list(self, st):
        out = []
        t = st.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        return out[::-1]

    def describe_trace(self, st, limit=25):
        out = []
        for ev in self.trace_list(st):
            if isinstance(ev, Event):
                out.append('%s %s' % (ev.loc, short_event(ev)))
            else:
                out.append(str(ev))
        if len(out) > limit:
            out = out[: limit // 2] + ['...'] + out[-limit // 2:]
        return out

    # -- types ------------------------------------------------------------------------------
    def class_of(self, t):
        '''ClassInfo of a term, if it can be established.'''
        if not isinstance(t, tuple) or not t:
            return None
        if t in self.types:
            return self.types[t]
        r = self._class_of(t)
        self.types[t] = r
        return r

    def _class_of(self, t):
        k = t[0]
        repo = self.repo
        if k in ('self', 'new'):
            e = repo.entity(t[1])
            return e if isinstance(e, ClassInfo) else None
        if k == 'attr':
            c = self.class_of(t[1])
            if c is not None:
                r = repo.attr_class(c, t[2])
                if r:
                    return r
                m = repo.lookup_method(c, t[2])
                if m is not None and m.is_property:
                    return repo.ann_class(m.mod, m.node.returns)
            return None
        if k == 'param':
            fi = repo.entity(t[2])
            if isinstance(fi, FuncInfo):
                return repo.ann_class(fi.mod, fi.annotation(t[1]))
            return None
        if k == 'res':
            e = repo.entity(t[1])
            if isinstance(e, ClassInfo):
                return e
            if isinstance(e, FuncInfo):
                ann = e.node.returns
                if e.is_cm or isinstance(ann, ast.Subscript):
                    # AsyncIterator[X] / AsyncGenerator[X, None]
                    if isinstance(ann, ast.Subscript) and e.is_cm:
                        s = ann.slice
                        if isinstance(s, ast.Tuple):
                            s = s.elts[0]
                        return repo.ann_class(e.mod, s)
                return repo.ann_class(e.mod, ann)
            return None
        if k == 'item' and is_const(t[2]) and t[1][0] == 'res':
            # tuple[X, Y]
            e = repo.entity(t[1][1])
            i = cval(t[2])
            if isinstance(e, FuncInfo) and isinstance(e.node.returns, ast.Subscript) and isinstance(i, int):
                ann = e.node.returns
                if isinstance(ann.value, ast.Name) and ann.value.id in ('tuple', 'Tuple') and isinstance(ann.slice, ast.Tuple) and \
                        -len(ann.slice.elts) <= i < len(ann.slice.elts):
                    return repo.ann_class(e.mod, ann.slice.elts[i])
        return None

    # -- function execution -----------------------------------------------------------------
    def _exec_function(self, fi, args, st, parent_frame):
        frame = next(self.nframe)
        # deterministic frame key so that states can merge across paths
        frame = ('F', self.nid(fi.node, 'frame'), len(self.stack))
        st = st.copy()
        saved_cur = st.cur
        f = dict(st.frames)
        saved_frame = f.get(frame)
        env = dict(args)
        if parent_frame is not None:
            env['$parent'] = parent_frame
        f[frame] = env
        st.frames = f
        st.cur = frame
        self.frame_fi[frame] = fi
        self.stats['functions'].add(fi.qual)
        self.stack.append(fi)
        if len(self.stack) > 60:
            raise AnalysisError('stack too deep')
        try:
            outs = self.block(fi.node.body if not isinstance(fi.node, ast.Lambda) else
                              [ast.copy_location(ast.Return(value=fi.node.body), fi.node)], st)
        finally:
            self.stack.pop()
        res = []
        for o in outs:
            s = o.st.copy()
            fr = dict(s.frames)
            keep = fr.get(frame)
            # keep the frame if a closure may still refer to it
            if not self._has_closure(fi):
                fr.pop(frame, None)
                if saved_frame is not None:
                    fr[frame] = saved_frame
            del keep
            s.frames = fr
            s.cur = saved_cur
            if o.kind in ('next', 'return'):
                res.append(Outcome('return', s, o.val if o.kind == 'return' else NONE))
            elif o.kind == 'raise':
                res.append(Outcome('raise', s, o.val))
            else:
                res.append(Outcome(o.kind, s, o.val))
        return self.limit_returns(self.merge_outcomes(res))

    def limit_returns(self, outs):
        if len(outs) <= self.policy.max_returns:
            return outs
        self.stats['coarse_returns'] = self.stats.get('coarse_returns', 0) + 1
        groups = {}
        for o in outs:
            # constants and None-ness of results stay distinguished
            v = o.val
            if o.kind == 'raise':
                v = (v[0], v[1]) if v is not None else None
            elif v is not None and not is_const(v):
                v = ('other', v[0])
            groups.setdefault((o.kind, v), []).append(o)
        res = []
        for (kind, v), os_ in groups.items():
            vals = {o.val for o in os_}
            if len(vals) == 1:
                val = os_[0].val
            elif kind == 'raise':
                ex = frozenset.intersection(*[frozenset(o.val[3] if len(o.val) > 3 else ()) for o in os_])
                val = ('exc', os_[0].val[1], (), tuple(sorted(ex)))
            else:
                val = ('unk', 'ret', self.nid(os_[0].st.cur) if False else 0)
            for st in self.coarse([o.st for o in os_]):
                res.append(Outcome(kind, st, val))
        return res

    def _has_closure(self, fi):
        r = getattr(fi, '_hc', None)
        if r is None:
            r = any(
                isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda))
                for n in walk_own(fi.node)
            )
            fi._hc = r
        return r

    # -- merging ----------------------------------------------------------------------------
    def key(self, st):
        fr = frozenset((k, frozenset(e.items())) for k, e in st.frames.items())
        hp = frozenset(st.heap.items())
        return (fr, hp, st.auto, st.epoch, st.exc)

    def merge(self, states):
        if len(states) < 2:
            return states
        d = {}
        order = []
        for s in states:
            k = self.key(s)
            if k in d:
                o = d[k]
                if o.facts != s.facts:
                    o = o.copy()
                    o.facts = {a: v for a, v in o.facts.items() if s.facts.get(a) == v}
                    d[k] = o
                self.stats['merged'] += 1
            else:
                d[k] = s
                order.append(k)
        res = [d[k] for k in order]
        if len(res) > self.policy.max_states:
            res = self.coarse(res)
        return res

    def coarse(self, states):
        self.stats['coarse'] = self.stats.get('coarse', 0) + 1
        d = {}
        for s in states:
            d.setdefault((s.auto, s.cur, s.exc), []).append(s)
        res = []
        for (auto, cur, exc), group in d.items():
            s = group[0].copy()
            if len(group) > 1:
                fr = {}
                for k, e in s.frames.items():
                    ne = {}
                    for n, v in e.items():
                        if all(g.frames.get(k, {}).get(n, None) == v for g in group):
                            ne[n] = v
                        elif all(n in g.frames.get(k, {}) for g in group):
                            ne[n] = ('unk', 'join', n)
                    fr[k] = ne
                s.frames = fr
                s.heap = {k: v for k, v in s.heap.items() if all(g.heap.get(k) == v for g in group)}
                s.facts = {k: v for k, v in s.facts.items() if all(g.facts.get(k) == v for g in group)}
            res.append(s)
        return res

    def merge_outcomes(self, outs):
        groups = {}
        for o in outs:
            groups.setdefault((o.kind, o.val), []).append(o.st)
        res = []
        for (kind, val), sts in groups.items():
            for s in self.merge(sts):
                res.append(Outcome(kind, s, val))
        return res

    def prune_dead(self, states, stmt):
        fi = self.fi
        lu = self.lastuse.get(fi.node)
        if lu is None:
            lu = self.lastuse[fi.node] = compute_lastuse(fi.node)
        lu, ends = lu
        end = ends.get(id(stmt), 0)
        res = []
        for s in states:
            env = s.frames.get(s.cur)
            dead = [n for n in env if n[0] != '$' and n in lu and lu[n] <= end]
            dead += [n for n in env if n[0] != '$' and n not in lu]
            if dead:
                s = s.copy()
                f = dict(s.frames)
                e = dict(env)
                for n in dead:
                    e.pop(n, None)
                f[s.cur] = e
                s.frames = f
            res.append(s)
        return res

    # -- statements -------------------------------------------------------------------------
    def block(self, stmts, st):
        outs = []
        states = [st]
        for s in stmts:
            nxt = []
            for x in states:
                for o in self.stmt(s, x):
                    if o.kind == 'next':
                        nxt.append(o.st)
                    else:
                        outs.append(o)
            if len(nxt) > 1:
                nxt = self.merge(self.prune_dead(nxt, s))
            states = nxt
            if not states:
                break
        outs.extend(Outcome('next', s) for s in states)
        return self.merge_outcomes(outs) if len(outs) > 1 else outs

    def stmt(self, node, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise AnalysisError('analysis budget exceeded in %s' % self.entry.qual)
        self.sinks.append([])
        try:
            m = getattr(self, 's_' + type(node).__name__, None)
            if m is None:
                raise AnalysisError('unsupported statement %s at %s' % (type(node).__name__, self.fi.loc(node)))
            outs = m(node, st)
        finally:
            sink = self.sinks.pop()
        return list(outs) + [Outcome('raise', s, v) for s, v in sink]

    def throw(self, st, exc):
        self.sinks[-1].append((st, exc))

    def s_Pass(self, node, st):
        return [Outcome('next', st)]

    def s_Global(self, node, st):
        st = st.copy()
        for n in node.names:
            st.setvar(st.cur, '$global:' + n, TRUE)
        return [Outcome('next', st)]

    def s_Nonlocal(self, node, st):
        st = st.copy()
        for n in node.names:
            st.setvar(st.cur, '$nonlocal:' + n, TRUE)
        return [Outcome('next', st)]

    def s_Import(self, node, st):
        return [Outcome('next', st)]

    s_ImportFrom = s_Import

    def s_Expr(self, node, st):
        if isinstance(node.value, ast.Constant):
            return [Outcome('next', st)]
        return [Outcome('next', s) for s, _ in self.ev(node.value, st)]

    def s_Assert(self, node, st):
        outs = []
        for s, b in self.cond(node.test, st):
            if b:
                outs.append(Outcome('next', s))
            else:
                outs.append(Outcome('raise', s, ('exc', 'builtins.AssertionError', (), ())))
        return outs

    def s_Return(self, node, st):
        if node.value is None:
            return [Outcome('return', st, NONE)]
        return [Outcome('return', s, v) for s, v in self.ev(node.value, st)]

    def s_Break(self, node, st):
        return [Outcome('break', st)]

    def s_Continue(self, node, st):
        return [Outcome('continue', st)]

    def s_Raise(self, node, st):
        outs = []
        if node.exc is None:
            outs.append(Outcome('raise', st, st.exc or ('exc', 'any', (), ())))
            return self._emit_raise(outs, node)
        for s, v in self.ev(node.exc, st):
            if node.cause is not None:
                for s2, _ in self.ev(node.cause, s):
                    outs.append(Outcome('raise', s2, self.as_exc(v)))
            else:
                outs.append(Outcome('raise', s, self.as_exc(v)))
        return self._emit_raise(outs, node)

    def _emit_raise(self, outs, node):
        res = []
        for o in outs:
            s = o.st.copy()
            self.emit(s, Event('raise', node, self.fi, name=o.val[1].rpartition('.')[2], qual=o.val[1],
                               args=o.val[2] if len(o.val) > 2 and isinstance(o.val[2], tuple) else (), res=o.val))
            res.append(Outcome('raise', s, o.val))
        return res

    def as_exc(self, v):
        if v[0] == 'exc':
            return v
        if v[0] in ('new', 'res'):
            return ('exc', v[1], v[3] if len(v) > 3 and isinstance(v[3], tuple) else (), ())
        if v[0] == 'cls':
            return ('exc', v[1], (), ())
        if v[0] == 'global':
            return ('exc', v[1], (), ())
        return ('exc', 'any', (v,), ())

    def s_If(self, node, st):
        outs = []
        sts = {True: [], False: []}
        for s, b in self.cond(node.test, st):
            sts[b].append(s)
        for s in self.merge(sts[True]):
            outs.extend(self.block(node.body, s))
        for s in self.merge(sts[False]):
            if node.orelse:
                outs.extend(self.block(node.orelse, s))
            else:
                outs.append(Outcome('next', s))
        return outs

    def s_While(self, node, st):
        outs, exits = [], []
        iters = self.policy.while_iters or self.policy.loop_iters
        cur = [st]
        saved = self.ctx
        try:
            for it in range(iters + 1):
                self.ctx = saved + (('it', id(node), min(it, 2)),)
                nxt = []
                if self.policy.widen is not None and it >= self.policy.widen:
                    for s in cur:
                        for n in self.loop_carried(node):
                            self.setname(s, n, ('unk', 'loop', n, it), node)
                for s in cur:
                    for s2, b in self.cond(node.test, s):
                        if not b:
                            exits.append(s2)
                        elif it < iters:
                            for o in self.block(node.body, s2):
                                if o.kind in ('next', 'continue'):
                                    nxt.append(o.st)
                                elif o.kind == 'break':
                                    outs.append(Outcome('next', o.st))
                                else:
                                    outs.append(o)
                cur = self.merge(nxt)
                if not cur:
                    break
        finally:
            self.ctx = saved
        for s in self.merge(exits):
            if node.orelse:
                outs.extend(self.block(node.orelse, s))
            else:
                outs.append(Outcome('next', s))
        return outs

    @staticmethod
    def loop_carried(node):
        names = set()
        for n in ast.walk(ast.Module(node.body, [])):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                names.add(n.target.id)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(
                    n.value, (ast.BinOp, ast.Call)) and any(isinstance(x, ast.Name) and x.id == n.targets[0].id for x in ast.walk(n.value)):
                names.add(n.targets[0].id)
        return sorted(names)

    def s_For(self, node, st):
        outs = []
        for s, it in self.ev(node.iter, st):
            outs.extend(self._for(node, s, it))
        return outs

    def s_AsyncFor(self, node, st):
        return self.s_For(node, st)

    def _for(self, node, st, it):
        is_async = isinstance(node, ast.AsyncFor)
        elems = const_elems(it)
        exact = elems is not None and len(elems) <= 40
        outs, exits = [], []
        cur = [st]
        saved = self.ctx
        n = len(elems) if exact else self.policy.loop_iters
        gen = None
        endless = it[0] in ('res', 'pure') and it[1] in ('itertools.count', 'itertools.cycle')
        if endless:
            n = max(n, 2)
        try:
            for i in range(n + 1):
                self.ctx = saved + (('it', id(node), i if exact else min(i, 2)),)
                if (not exact or i == n) and not endless:
                    for s in cur:
                        s = s.copy()
                        if is_async:
                            self.do_await(s, node)
                        self.emit(s, Event('loopexit', node, self.fi, extra=i, res=it))
                        exits.append(s)
                if i == n:
                    break
                nxt = []
                for s in cur:
                    s = s.copy()
                    if is_async:
                        self.do_await(s, node)
                    el = elems[i] if exact else ('elem', it, min(i, 2))
                    self.sinks.append([])
                    self.emit(s, Event('iter', node, self.fi, extra=i, res=el, recv=it))
                    for s2 in self.assign(node.target, el, s, node):
                        for o in self.block(node.body, s2):
                            if o.kind in ('next', 'continue'):
                                nxt.append(o.st)
                            elif o.kind == 'break':
                                outs.append(Outcome('next', o.st))
                            else:
                                outs.append(o)
                    for s2, v in self.sinks.pop():
                        outs.append(Outcome('raise', s2, v))
                cur = self.merge(nxt)
                if not cur:
                    break
        finally:
            self.ctx = saved
        del gen
        for s in self.merge(exits):
            if node.orelse:
                outs.extend(self.block(node.orelse, s))
            else:
                outs.append(Outcome('next', s))
        return outs

    def s_Assign(self, node, st):
        outs = []
        # parallel tuple assignment keeps elementwise terms
        for s, v in self.ev(node.value, st):
            sts = [s]
            for t in node.targets:
                nxt = []
                for x in sts:
                    nxt.extend(self.assign(t, v, x, node))
                sts = nxt
            outs.extend(Outcome('next', x) for x in sts)
        return outs

    def s_AnnAssign(self, node, st):
        if node.value is None:
            return [Outcome('next', st)]
        outs = []
        for s, v in self.ev(node.value, st):
            outs.extend(Outcome('next', x) for x in self.assign(node.target, v, s, node))
        return outs

    def s_AugAssign(self, node, st):
        outs = []
        load = to_load(node.target)
        for s, cur in self.ev(load, st):
            for s2, v in self.ev(node.value, s):
                val = binop(type(node.op).__name__, cur, v)
                for x in self.assign(node.target, val, s2, node, aug=(type(node.op).__name__, v)):
                    outs.append(Outcome('next', x))
        return outs

    def assign(self, target, val, st, node, aug=None):
        '''Assign; returns list of states.'''
        if isinstance(target, ast.Name):
            st = st.copy()
            self.setname(st, target.id, val, node, aug)
            return [st]
        if isinstance(target, ast.Starred):
            return self.assign(target.value, ('unk', self.nid(target)), st, node)
        if isinstance(target, (ast.Tuple, ast.List)):
            sts = [st]
            for i, t in enumerate(target.elts):
                nxt = []
                if val[0] == 'tuple' and len(val) - 1 == len(target.elts):
                    v = val[1 + i]
                elif is_const(val) and isinstance(val[1], tuple) and len(val[1]) == len(target.elts):
                    v = const(val[1][i])
                else:
                    v = ('item', val, const(i))
                for s in sts:
                    nxt.extend(self.assign(t, v, s, node))
                sts = nxt
            return sts
        if isinstance(target, ast.Attribute):
            res = []
            for s, base in self.ev(target.value, st):
                s = s.copy()
                self.setattr(s, base, target.attr, val, node, aug)
                res.append(s)
            return res
        if isinstance(target, ast.Subscript):
            res = []
            for s, base in self.ev(target.value, st):
                for s2, idx in self.ev(target.slice, s):
                    s2 = s2.copy()
                    self.emit(s2, Event('setitem', node, self.fi, recv=base, args=(idx, val), extra=aug))
                    self.invalidate_content(s2, base)
                    if base[0] in ('obj', 'new'):
                        s2.setheap(base, ('item', idx), val)
                    else:
                        s2.setfact(('in', idx, base), True)
                    res.append(s2)
            return res
        raise AnalysisError('unsupported target at %s' % self.fi.loc(target))

    def setname(self, st, name, val, node=None, aug=None):
        env = st.frames[st.cur]
        if '$global:' + name in env:
            g = ('global', self.fi.mod.name + '.' + name)
            self.emit(st, Event('setglobal', node, self.fi, name=name, qual=g[1], res=val, args=(val,)))
            st.setheap('global', g[1], val)
            return
        if '$nonlocal:' + name in env:
            f = env.get('$parent')
            while f is not None and f in st.frames:
                if name in st.frames[f]:
                    st.setvar(f, name, val)
                    return
                f = st.frames[f].get('$parent')
        st.setvar(st.cur, name, val)

    def setattr(self, st, base, name, val, node, aug=None):
        self.emit(st, Event('setattr', node, self.fi, recv=base, name=name, res=val, args=(val,), extra=aug))
        self.invalidate_attr(st, base, name)
        st.setheap(base, name, val)

    def invalidate_attr(self, st, base, name):
        pred = lambda t: t[0] == 'attr' and t[2] == name
        st.facts = {a: v for a, v in st.facts.items() if not mentions_live(a, pred)}
        if base[0] not in ('new', 'obj'):
            h = {k: v for k, v in st.heap.items()
                 if not (k[1] == name and k[0] != base and k[0][0] not in ('new', 'obj'))}
            st.heap = h

    def invalidate_content(self, st, base):
        '''Container *base* has been modified.'''
        def bad(a):
            if a[0] == 'in':
                return mentions_live(a[2], lambda t: t == base)
            return mentions_live(a, lambda t: (t[0] in ('item', 'pure', 'elem') or a[0] == 'true') and mentions_live(t, lambda u: u == base))
        st.facts = {a: v for a, v in st.facts.items() if not bad(a)}

    def do_await(self, st, node, ev=None, tag='await'):
        e = Event('await', node, self.fi)
        if ev is not None:
            e.name, e.qual, e.recv, e.args, e.kw, e.target = ev.name, ev.qual, ev.recv, ev.args, ev.kw, ev.target
        self.emit(st, e)
        self.clobber(st, self.nid(node, tag))

    def clobber(self, st, epoch):
        repo_stable = stable_attrs(self.repo)
        extra = getattr(self.policy, 'stable', None)
        if extra:
            repo_stable = repo_stable | extra

        def vol(t):
            if t[0] == 'attr' and t[2] not in repo_stable and t[1][0] not in ('new', 'obj'):
                return True
            return t[0] in ('item', 'global') and mentions_live(t, lambda u: u[0] == 'attr')

        def bad(a):
            if a[0] == 'in' and mentions_live(a[2], lambda u: u[0] in ('attr', 'global', 'self')):
                return True
            if a[0] == 'true' and a[1][0] == 'attr' and False:
                return True
            return mentions_live(a, vol)

        st.facts = {a: v for a, v in st.facts.items() if not bad(a)}
        st.heap = {k: v for k, v in st.heap.items()
                   if isinstance(k[0], tuple) and (k[0][0] in ('new', 'obj') or k[1] in repo_stable)}
        if getattr(self.policy, 'epochs', False):
            st.epoch = epoch

    def s_Delete(self, node, st):
        sts = [st]
        for t in node.targets:
            nxt = []
            for s in sts:
                if isinstance(t, ast.Subscript):
                    for s1, base in self.ev(t.value, s):
                        for s2, idx in self.ev(t.slice, s1):
                            s2 = s2.copy()
                            self.emit(s2, Event('delitem', node, self.fi, recv=base, args=(idx,)))
                            self.invalidate_content(s2, base)
                            if (base, ('item', idx)) in s2.heap:
                                h = dict(s2.heap)
                                del h[(base, ('item', idx))]
                                s2.heap = h
                            s2.setfact(('in', idx, base), False)
                            nxt.append(s2)
                elif isinstance(t, ast.Name):
                    s = s.copy()
                    s.delvar(s.cur, t.id)
                    nxt.append(s)
                elif isinstance(t, ast.Attribute):
                    for s1, base in self.ev(t.value, s):
                        s1 = s1.copy()
                        self.emit(s1, Event('delattr', node, self.fi, recv=base, name=t.attr))
                        nxt.append(s1)
                else:
                    nxt.append(s)
            sts = nxt
        return [Outcome('next', s) for s in sts]

    def s_FunctionDef(self, node, st):
        st = st.copy()
        fi = self.closures.get(id(node))
        if fi is None:
            fi = FuncInfo(self.fi.mod, self.fi.cls, self.fi.name + '.<locals>.' + node.name, node, self.fi)
            fi.nested = True
            self.closures[id(node)] = fi
        val = ('closure', id(node), st.cur)
        st.setvar(st.cur, node.name, val)
        return [Outcome('next', st)]

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, node, st):
        st = st.copy()
        st.setvar(st.cur, node.name, ('unk', self.nid(node)))
        return [Outcome('next', st)]

    def s_Match(self, node, st):
        outs = []
        for s, subj in self.ev(node.subject, st):
            rest = [s]
            for case in node.cases:
                nxt = []
                for r in rest:
                    for s2, b in self.match_pattern(case.pattern, subj, r, node):
                        if b and case.guard is not None:
                            for s3, g in self.cond(case.guard, s2):
                                if g:
                                    outs.extend(self.block(case.body, s3))
                                else:
                                    nxt.append(s3)
                        elif b:
                            outs.extend(self.block(case.body, s2))
                        else:
                            nxt.append(s2)
                rest = self.merge(nxt)
            outs.extend(Outcome('next', r) for r in rest)
        return outs

    def match_pattern(self, p, subj, st, node):
        if isinstance(p, ast.MatchValue):
            res = []
            for s, v in self.ev(p.value, st):
                res.extend(self.assume(mk_eq(subj, v), s))
            return res
        if isinstance(p, ast.MatchSingleton):
            if p.value is None:
                return self.assume(('isnone', subj), st)
            return self.assume(mk_eq(subj, const(p.value)), st)
        if isinstance(p, ast.MatchOr):
            res, rest = [], [st]
            for q in p.patterns:
                nxt = []
                for r in rest:
                    for s, b in self.match_pattern(q, subj, r, node):
                        (res if b else nxt).append((s, True) if b else s)
                rest = nxt
            return res + [(s, False) for s in rest]
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                st = st.copy()
                if p.name:
                    self.setname(st, p.name, subj)
                return [(st, True)]
            res = []
            for s, b in self.match_pattern(p.pattern, subj, st, node):
                if b and p.name:
                    s = s.copy()
                    self.setname(s, p.name, subj)
                res.append((s, b))
            return res
        return [(st, True), (st.copy(), False)]

    # try / with ----------------------------------------------------------------------------
    def s_Try(self, node, st):
        outs = self.block(node.body, st)
        mid = []
        for o in outs:
            if o.kind == 'next' and node.orelse:
                mid.extend(self.block(node.orelse, o.st))
            elif o.kind == 'raise' and node.handlers:
                mid.extend(self.handle(node.handlers, o))
            else:
                mid.append(o)
        mid = self.merge_outcomes(mid)
        if not node.finalbody:
            return mid
        res = []
        for o in mid:
            s = o.st
            saved = s.exc
            if o.kind == 'raise':
                s = s.copy()
                s.exc = o.val
            for f in self.block(node.finalbody, s):
                if f.kind == 'next':
                    s2 = f.st.copy()
                    s2.exc = saved
                    res.append(Outcome(o.kind, s2, o.val))
                else:
                    res.append(f)
        return self.merge_outcomes(res)

    s_TryStar = s_Try

    def handle(self, handlers, o):
        res = []
        cur = [(o.st, o.val)]
        for h in handlers:
            nxt = []
            names = self.handler_names(h)
            for s, exc in cur:
                m = self.exc_match(exc, names)
                hit = None
                if m == 'yes':
                    hit = exc
                elif m == 'maybe':
                    hit = self.narrow(exc, names)
                    nxt.append((s, self.exclude(exc, names)))
                else:
                    nxt.append((s, exc))
                if hit is not None:
                    s2 = s.copy()
                    saved = s2.exc
                    s2.exc = hit
                    if h.name:
                        s2.setvar(s2.cur, h.name, hit)
                    self.emit(s2, Event('handler', h, self.fi, name=hit[1].rpartition('.')[2], qual=hit[1],
                                        res=hit, extra=names))
                    for r in self.block(h.body, s2):
                        s3 = r.st.copy()
                        s3.exc = saved
                        if h.name:
                            s3.delvar(s3.cur, h.name)
                        res.append(Outcome(r.kind, s3, r.val))
            cur = nxt
        res.extend(Outcome('raise', s, e) for s, e in cur)
        return res

    def handler_names(self, h):
        if h.type is None:
            return ('builtins.BaseException',)
        elts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        names = []
        for e in elts:
            d = self.repo.dotted_expr(self.fi.mod, e)
            v = self.repo.modules.get(self.fi.mod.name)
            if d is not None and v is not None and isinstance(e, ast.Name) and isinstance(
                v.assigns.get(e.id), ast.Tuple
            ):
                for x in v.assigns[e.id].elts:
                    names.append(self.repo.dotted_expr(self.fi.mod, x) or 'any')
                continue
            names.append(d or 'any')
        return tuple(names)

    def exc_match(self, exc, names):
        cls = exc[1]
        if cls == 'any':
            if 'builtins.BaseException' in names:
                return 'yes'
            excl = exc[3] if len(exc) > 3 else ()
            if all(n in excl or any(self.is_sub(n, x) for x in excl) for n in names):
                return 'no'
            return 'maybe'
        if any(self.is_sub(cls, n) for n in names):
            return 'yes'
        excl = exc[3] if len(exc) > 3 else ()
        if any(self.is_sub(n, cls) and n not in excl for n in names):
            return 'maybe'
        return 'no'

    def narrow(self, exc, names):
        if exc[1] == 'any' or len(names) >= 1:
            n = [x for x in names if exc[1] == 'any' or self.is_sub(x, exc[1])]
            return ('exc', n[0], exc[2], exc[3] if len(exc) > 3 else ())
        return exc

    def exclude(self, exc, names):
        ex = exc[3] if len(exc) > 3 else ()
        return ('exc', exc[1], exc[2], tuple(sorted(set(ex) | set(names))))

    def known_instance(self, t, c):
        '''isinstance() of an object created on the path: True, False or None (unknown).'''
        if t == NONE:
            return False if c[0] == 'cls' and self.repo.cls(c[1], optional=True) else None
        if t[0] != 'new':
            return None
        if c[0] == 'tuple':
            r = [self.known_instance(t, x) for x in c[1:]]
            return True if True in r else False if all(x is False for x in r) else None
        ci = self.repo.cls(t[1], optional=True)
        if ci is None or c[0] not in ('cls', 'global'):
            return None
        mro = exc_mro(self.repo, t[1])
        if c[1] in mro or c[1] in [x.qual for x in self.repo.mro(ci)]:
            return True
        if 'builtins.BaseException' in mro or all(self.repo.bases(x) or not x.base_exprs for x in self.repo.mro(ci)):
            return False
        return None

    def is_sub(self, a, b):
        '''Is exception class a a subclass of b (dotted names)?'''
        a, b = ALIASES.get(a, a), ALIASES.get(b, b)
        if a == b or b == 'builtins.BaseException':
            return True
        return b in exc_mro(self.repo, a)

    def s_With(self, node, st):
        return self._with(node, node.items, st)

    s_AsyncWith = s_With

    def _with(self, node, items, st):
        if not items:
            return self.block(node.body, st)
        item, rest = items[0], items[1:]
        is_async = isinstance(node, ast.AsyncWith)
        outs = []
        self.sinks.append([])
        for s, cm, info in self.ev_cm(item.context_expr, st):
            outs.extend(self._with_cm(node, item, rest, s, cm, info, is_async))
        outs.extend(Outcome('raise', s, v) for s, v in self.sinks.pop())
        return outs

    def ev_cm(self, expr, st):
        '''Evaluate a context manager expression: (state, term, (fi, bound) or None).'''
        if isinstance(expr, ast.Call):
            res = []
            for s, f in self.ev(expr.func, st):
                for s2, args, kw in self.ev_args(expr, s):
                    tgt = self.resolve(f, s2)
                    if tgt is not None and isinstance(tgt[0], FuncInfo) and tgt[0].is_cm:
                        fi, selft = tgt
                        ev = Event('call', expr, self.fi, name=fi.name, qual=fi.qual, recv=selft, args=args,
                                   kw=kw, target=fi)
                        term = ('res', fi.qual, self.nid(expr), ())
                        ev.res = term
                        s2 = s2.copy()
                        self.emit(s2, ev)
                        if self.can_inline(fi):
                            res.append((s2, term, (fi, self.bindargs(fi, selft, args, kw), None, ev)))
                        else:
                            res.append((s2, term, ('opaque', ev)))
                    else:
                        for s3, v in self.call(expr, f, args, kw, s2, False):
                            res.append((s3, v, None))
            return res
        return [(s, v, None) for s, v in self.ev(expr, st)]

    def _with_cm(self, node, item, rest, st, cm, info, is_async):
        def body(s):
            return self._with(node, rest, s)

        ci = self.class_of(cm)
        if info is not None and info[0] != 'opaque':
            fi, args, parent, ev = info

            def cb(s, val):
                # executed at the yield of the context manager function, in the caller's frame
                saved_stack, saved_cb = self.stack, self.yield_cb
                cmframe = s.cur
                s = s.copy()
                s.cur = caller_frame
                self.stack = caller_stack
                self.yield_cb = caller_cb
                self.sinks.append([])
                try:
                    sts = [s]
                    if item.optional_vars is not None:
                        sts = self.assign(item.optional_vars, val, s, node)
                    outs = []
                    for x in sts:
                        outs.extend(body(x))
                finally:
                    self.stack, self.yield_cb = saved_stack, saved_cb
                    sink = self.sinks.pop()
                outs.extend(Outcome('raise', a, b) for a, b in sink)
                res = []
                for o in outs:
                    s2 = o.st.copy()
                    s2.cur = cmframe
                    if o.kind not in ('next', 'raise'):
                        s2.setvar(cmframe, '$pending', ('pending', o.kind, o.val))
                        res.append(Outcome('next', s2))
                    else:
                        res.append(Outcome(o.kind, s2, o.val))
                return res

            caller_frame = st.cur
            caller_stack = self.stack
            caller_cb = self.yield_cb
            self.yield_cb = self.yield_cb + [cb]
            self.stack = list(self.stack)
            saved_ctx = self.ctx
            self.ctx = self.ctx + (('cm', id(node), id(item)),)
            try:
                frame_probe = {}
                outs = self._exec_cm(fi, args, st, frame_probe)
            finally:
                self.yield_cb = caller_cb
                self.stack = caller_stack
                self.ctx = saved_ctx
            res = []
            for o, pending in outs:
                if o.kind == 'return':
                    if pending is not None:
                        res.append(Outcome(pending[1], o.st, pending[2]))
                    else:
                        res.append(Outcome('next', o.st))
                else:
                    res.append(o)
            return res
        # suppress
        sup = None
        name = cm[1] if cm[0] in ('res', 'new') else ''
        if name == 'contextlib.suppress':
            sup = self.last_suppress.get(cm, ())
        st = st.copy()
        val = ('res', 'enter:' + name, self.nid(item.context_expr, 'enter'), (cm,))
        enter_m = exit_m = None
        if ci is not None:
            enter_m = self.repo.lookup_method(ci, '__aenter__' if is_async else '__enter__')
            exit_m = self.repo.lookup_method(ci, '__aexit__' if is_async else '__exit__')
        if name in ('trio.open_nursery',):
            val = cm
        elif enter_m is None:
            val = cm if name in ('builtins.open', 'tempfile.TemporaryFile', 'tempfile.NamedTemporaryFile') or ci is None else cm
        ent = Event('enter', item.context_expr, self.fi, name=name.rpartition('.')[2] or show(cm), qual=name, recv=cm, awaited=is_async)
        self.emit(st, ent)
        if is_async:
            self.do_await(st, item.context_expr)
        if info is not None and info[0] == 'opaque':
            self.fork_raises(info[1], st)
        elif is_async and self.policy.enter_raises:
            self.fork_raises(ent, st)
        starts = [(st, val)]
        if enter_m is not None and self.can_inline(enter_m):
            starts = []
            for o in self._inline(enter_m, self.bindargs(enter_m, cm, (), {}), st, None, item.context_expr):
                if o.kind == 'return':
                    starts.append((o.st, o.val))
                else:
                    self.throw(o.st, o.val)
        outs = []
        for s, v in starts:
            sts = [s]
            if item.optional_vars is not None:
                sts = self.assign(item.optional_vars, v, s, node)
            for x in sts:
                for o in body(x):
                    s2 = o.st.copy()
                    self.emit(s2, Event('exit', item.context_expr, self.fi,
                                        name=name.rpartition('.')[2] or show(cm), qual=name, recv=cm,
                                        extra=o.kind, awaited=is_async))
                    if is_async:
                        self.do_await(s2, item.context_expr, tag='await-exit')
                    if sup is not None and o.kind == 'raise':
                        m = self.exc_match(o.val, sup)
                        if m == 'yes':
                            outs.append(Outcome('next', s2))
                            continue
                        if m == 'maybe':
                            outs.append(Outcome('next', s2.copy()))
                            outs.append(Outcome('raise', s2, self.exclude(o.val, sup)))
                            continue
                    if exit_m is not None and self.can_inline(exit_m):
                        ps = exit_m.params()[1:]
                        ex = [NONE] * 3 if o.kind != 'raise' else [('unk', 'exctype'), o.val, ('unk', 'tb')]
                        for r in self._inline(exit_m, self.bindargs(exit_m, cm, tuple(ex[:len(ps)]), {}), s2, None,
                                              item.context_expr):
                            if r.kind == 'raise':
                                outs.append(r)
                            elif o.kind == 'raise' and const_truth(r.val) is True:
                                outs.append(Outcome('next', r.st))
                            else:
                                outs.append(Outcome(o.kind, r.st, o.val))
                        continue
                    outs.append(Outcome(o.kind, s2, o.val))
        return self.merge_outcomes(outs)

    last_suppress = {}

    def _exec_cm(self, fi, args, st, probe):
        '''Run a context-manager generator function; returns [(Outcome, pending)].'''
        frame = ('F', self.nid(fi.node, 'frame'), len(self.stack))
        st = st.copy()
        saved = st.cur
        f = dict(st.frames)
        f[frame] = dict(args)
        st.frames = f
        st.cur = frame
        self.stats['functions'].add(fi.qual)
        self.stack.append(fi)
        try:
            outs = self.block(fi.node.body, st)
        finally:
            self.stack.pop()
        res = []
        for o in outs:
            s = o.st.copy()
            fr = dict(s.frames)
            pend = fr.get(frame, {}).get('$pending')
            fr.pop(frame, None)
            s.frames = fr
            s.cur = saved
            kind = 'return' if o.kind in ('next', 'return') else o.kind
            res.append((Outcome(kind, s, o.val), pend))
        return res

    # -- conditions -------------------------------------------------------------------------
    def assume(self, atom, st):
        r = st.truth(atom)
        if r is not None:
            return [(st, r)]
        a, b = st.copy(), st
        b = st.copy()
        a.setfact(atom, True)
        b.setfact(atom, False)
        hook = getattr(self.mon, 'branch', None)
        if hook is not None:
            a.auto = hook(a.auto, atom, True, a, self)
            b.auto = hook(b.auto, atom, False, b, self)
        return [(a, True), (b, False)]

    def cond(self, node, st):
        if isinstance(node, ast.BoolOp):
            is_and = isinstance(node.op, ast.And)
            cur = [st]
            res = []
            for i, v in enumerate(node.values):
                nxt = []
                for s in cur:
                    for s2, b in self.cond(v, s):
                        if b == is_and and i < len(node.values) - 1:
                            nxt.append(s2)
                        else:
                            res.append((s2, b))
                cur = nxt
            return res
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, not b) for s, b in self.cond(node.operand, st)]
        if isinstance(node, ast.IfExp):
            res = []
            for s, b in self.cond(node.test, st):
                res.extend(self.cond(node.body if b else node.orelse, s))
            return res
        res = []
        for s, v in self.ev(node, st):
            res.extend(self.truthy(v, s))
        return res

    def truthy(self, v, st):
        if v[0] == 'cmp':
            return [(s, b == v[2]) for s, b in self.assume_any(v[1], st)]
        if v[0] == 'not':
            return [(s, not b) for s, b in self.truthy(v[1], st)]
        return self.assume(('true', v), st)

    def assume_any(self, atom, st):
        return self.assume(atom, st)

    def compare(self, op, a, b):
        '''(term) for a comparison.'''
        n = type(op).__name__
        if n in ('Eq', 'NotEq'):
            return ('cmp', mk_eq(a, b), n == 'Eq')
        if n in ('Is', 'IsNot'):
            if is_const(b) and b[1] is None:
                return ('cmp', ('isnone', a), n == 'Is')
            if is_const(a) and a[1] is None:
                return ('cmp', ('isnone', b), n == 'Is')
            if is_const(a) or is_const(b):
                return ('cmp', mk_eq(a, b), n == 'Is')
            return ('cmp', ('is',) + tuple(sorted((a, b), key=repr)), n == 'Is')
        if n == 'Lt':
            return ('cmp', ('lt', a, b), True)
        if n == 'Gt':
            return ('cmp', ('lt', b, a), True)
        if n == 'GtE':
            return ('cmp', ('lt', a, b), False)
        if n == 'LtE':
            return ('cmp', ('lt', b, a), False)
        if n in ('In', 'NotIn'):
            return ('cmp', ('in', a, b), n == 'In')
        return ('unk', n)

    # -- expressions ------------------------------------------------------------------------
    def evs(self, nodes, st):
        res = [(st, ())]
        for n in nodes:
            nxt = []
            for s, vals in res:
                for s2, v in self.ev(n, s):
                    nxt.append((s2, vals + (v,)))
            res = nxt
        return res

    def ev(self, node, st):
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            subs = [c for c in ast.iter_child_nodes(node) if isinstance(c, ast.expr)]
            return [(s, ('unk', self.nid(node))) for s, _ in self.evs(subs, st)]
        return m(node, st)

    def e_Constant(self, node, st):
        return [(st, const(node.value))]

    def e_Name(self, node, st):
        return [(st, self.lookup(node.id, st))]

    def lookup(self, name, st):
        f = st.cur
        first = True
        while f is not None and f in st.frames:
            env = st.frames[f]
            if '$global:' + name in env and first:
                break
            if name in env:
                return env[name]
            first = False
            f = env.get('$parent')
        return self.global_term(self.fi.mod, name, st)

    def global_term(self, mod, name, st):
        dotted = mod.resolve(name)
        return self.dotted_term(dotted, st)

    def dotted_term(self, dotted, st):
        if ('global', dotted) in st.heap:
            return st.heap[('global', dotted)]
        e = self.repo.entity(dotted)
        if isinstance(e, FuncInfo):
            return ('func', e.qual)
        if isinstance(e, ClassInfo):
            return ('cls', e.qual)
        modname, _, attr = dotted.rpartition('.')
        m = self.repo.modules.get(modname)
        if m is not None and attr in m.consts and not global_written(m, attr):
            v = m.consts[attr]
            if isinstance(v, (str, bytes, int, float, bool, type(None), tuple, frozenset)):
                return const(v)
        return ('global', dotted)

    def e_Attribute(self, node, st):
        d = None
        # dotted global?
        root = node
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(root, ast.Name) and self.lookup(root.id, st)[0] == 'global':
            d = self.repo.dotted_expr(self.fi.mod, node)
            b = self.lookup(root.id, st)
            modname = b[1]
            if modname in self.repo.modules or not modname.startswith(('s3ql.', 'contrib.')):
                if d:
                    return [(st, self.dotted_term(d, st))]
        res = []
        for s, base in self.ev(node.value, st):
            res.extend(self.getattr(s, base, node.attr, node))
        return res

    def getattr(self, st, base, name, node):
        if (base, name) in st.heap:
            return [(st, st.heap[(base, name)])]
        if base[0] == 'global':
            return [(st, ('attr', base, name))]
        if base[0] == 'cls':
            ci = self.repo.entity(base[1])
            m = self.repo.lookup_method(ci, name)
            if m is not None:
                return [(st, ('func', m.qual) if m.is_static else
                         (('bound', base, name) if m.is_classmethod else ('func', m.qual)))]
            c = self.repo.lookup_const(ci, name)
            if c is not None:
                v = literal(c[1])
                if v is not NOLIT:
                    return [(st, const(v))]
            return [(st, ('attr', base, name))]
        ci = self.class_of(base)
        if ci is not None:
            m = self.repo.lookup_method(ci, name)
            if m is not None:
                if m.is_property:
                    if self.can_inline(m) and m.cls is not None and len(self.repo.subclasses(m.cls)) >= 1:
                        res = []
                        for o in self._inline(m, self.bindargs(m, base, (), {}), st, None, node):
                            if o.kind == 'return':
                                res.append((o.st, o.val))
                            else:
                                self.throw(o.st, o.val)
                        return res
                    return [(st, ('attr', base, name))]
                return [(st, ('bound', base, name))]
            c = self.repo.lookup_const(ci, name)
            if c is not None and not attr_assigned(self.repo, name) and not (name in c[0].ann and is_record(c[0])):
                v = literal(c[1])
                if v is not NOLIT:
                    t = const(v)
                    if t[0] == 'const':
                        return [(st, t)]
        if st.epoch and name not in stable_attrs(self.repo) and base[0] not in ('new', 'obj'):
            return [(st, ('attr', base, name, st.epoch))]
        return [(st, ('attr', base, name))]

    def e_BoolOp(self, node, st):
        is_and = isinstance(node.op, ast.And)
        res = []
        cur = [st]
        for i, v in enumerate(node.values):
            nxt = []
            last = i == len(node.values) - 1
            for s in cur:
                for s2, val in self.ev(v, s):
                    if last:
                        res.append((s2, val))
                        continue
                    for s3, b in self.truthy(val, s2):
                        if b == is_and:
                            nxt.append(s3)
                        else:
                            res.append((s3, (FALSE if is_and else TRUE) if val[0] in ('cmp', 'not') else val))
            cur = nxt
        return res

    def e_UnaryOp(self, node, st):
        res = []
        for s, v in self.ev(node.operand, st):
            if isinstance(node.op, ast.Not):
                tv = s.truth(('true', v))
                res.append((s, const(not tv) if tv is not None else ('not', v)))
            elif is_const(v) and isinstance(node.op, ast.USub) and isinstance(v[1], (int, float)):
                res.append((s, const(-v[1])))
            else:
                res.append((s, ('pure', type(node.op).__name__, (v,))))
        return res

    def e_BinOp(self, node, st):
        res = []
        for s, (a, b) in self.evs([node.left, node.right], st):
            if isinstance(node.op, ast.Mod) and ((is_const(a) and isinstance(a[1], (str, bytes))) or a[0] == 'fmt'):
                res.append((s, percent(a, b, self.nid(node))))
            else:
                res.append((s, binop(type(node.op).__name__, a, b)))
        return res

    def e_Compare(self, node, st):
        if len(node.ops) == 1:
            res = []
            for s, (a, b) in self.evs([node.left, node.comparators[0]], st):
                res.append((s, self.compare(node.ops[0], a, b)))
            return res
        # chained comparison: fork on each link
        res = []
        for s, vals in self.evs([node.left] + node.comparators, st):
            cur = [s]
            for i, op in enumerate(node.ops):
                t = self.compare(op, vals[i], vals[i + 1])
                nxt = []
                for x in cur:
                    for y, b in self.truthy(t, x):
                        if b:
                            nxt.append(y)
                        else:
                            res.append((y, FALSE))
                cur = nxt
            res.extend((x, TRUE) for x in cur)
        return res

    def e_IfExp(self, node, st):
        res = []
        for s, b in self.cond(node.test, st):
            res.extend(self.ev(node.body if b else node.orelse, s))
        return res

    def e_NamedExpr(self, node, st):
        res = []
        for s, v in self.ev(node.value, st):
            s = s.copy()
            self.setname(s, node.target.id, v)
            res.append((s, v))
        return res

    def e_Tuple(self, node, st):
        if any(isinstance(e, ast.Starred) for e in node.elts):
            res = []
            for s, vals in self.evs([e.value if isinstance(e, ast.Starred) else e for e in node.elts], st):
                out, ok = [], True
                for e, v in zip(node.elts, vals):
                    if isinstance(e, ast.Starred):
                        el = const_elems(v)
                        if el is None:
                            ok = False
                            break
                        out.extend(el)
                    else:
                        out.append(v)
                res.append((s, ('tuple',) + tuple(out) if ok else ('pure', 'tuple', vals)))
            return res
        return [(s, ('tuple',) + v) for s, v in self.evs(node.elts, st)]

    def e_List(self, node, st):
        res = []
        for s, v in self.e_Tuple(node, st):
            s = s.copy()
            o = ('obj', 'list', self.nid(node))
            self.drop_obj(s, o)
            s.setheap(o, '$init', v)
            s.setheap(o, '$orig', v)
            res.append((s, o))
        return res

    def e_Set(self, node, st):
        return [(s, ('tuple',) + v) for s, v in self.evs(node.elts, st)]

    def drop_obj(self, s, o):
        if any(k[0] == o for k in s.heap):
            s.heap = {k: v for k, v in s.heap.items() if k[0] != o}

    def e_Dict(self, node, st):
        o = ('obj', 'dict', self.nid(node))
        res = [(st, ())]
        for k, v in zip(node.keys, node.values):
            nxt = []
            for s, items in res:
                if k is None:
                    for s2, vv in self.ev(v, s):
                        nxt.append((s2, items + ((('unk', '**'), vv),)))
                else:
                    for s2, kk in self.ev(k, s):
                        for s3, vv in self.ev(v, s2):
                            nxt.append((s3, items + ((kk, vv),)))
            res = nxt
        out = []
        for s, items in res:
            s = s.copy()
            self.drop_obj(s, o)
            s.setheap(o, '$init', ('tuple',) + tuple(('tuple', k, v) for k, v in items))
            for k, v in items:
                s.setheap(o, ('item', k), v)
            out.append((s, o))
        return out

    def e_Slice(self, node, st):
        parts = [node.lower, node.upper, node.step]
        res = []
        for s, vals in self.evs([p for p in parts if p is not None], st):
            it = iter(vals)
            res.append((s, ('pure', 'slice', tuple(next(it) if p is not None else NONE for p in parts))))
        return res

    def e_Subscript(self, node, st):
        res = []
        if isinstance(node.slice, ast.Slice):
            parts = [x for x in (node.slice.lower, node.slice.upper, node.slice.step)]
            for s, base in self.ev(node.value, st):
                for s2, vals in self.evs([p for p in parts if p is not None], s):
                    it = iter(vals)
                    lo, hi, step = [next(it) if p is not None else NONE for p in parts]
                    if is_const(base) and all(is_const(x) for x in (lo, hi, step)):
                        try:
                            res.append((s2, const(base[1][lo[1]:hi[1]:step[1]])))
                            continue
                        except Exception:
                            pass
                    res.append((s2, ('pure', 'slice', (base, lo, hi, step))))
            return res
        for s, base in self.ev(node.value, st):
            for s2, idx in self.ev(node.slice, s):
                key = (base, ('item', idx))
                if key in s2.heap:
                    res.append((s2, s2.heap[key]))
                    continue
                init = s2.heap.get((base, '$init'))
                if base[0] == 'obj' and base[1] == 'list' and init is not None and is_const(idx) and init[0] == 'tuple':
                    try:
                        res.append((s2, init[1:][idx[1]]))
                        continue
                    except Exception:
                        pass
                if base[0] == 'tuple' and is_const(idx) and isinstance(idx[1], int):
                    try:
                        res.append((s2, base[1:][idx[1]]))
                        continue
                    except IndexError:
                        pass
                if is_const(base) and is_const(idx):
                    try:
                        res.append((s2, const(base[1][idx[1]])))
                        continue
                    except Exception:
                        pass
                ev = Event('getitem', node, self.fi, recv=base, args=(idx,), name='__getitem__', qual='?.__getitem__')
                s2 = s2.copy()
                if st.epoch and mentions(base, lambda t: t[0] == 'attr'):
                    ev.res = ('item', base, idx, s2.epoch)
                else:
                    ev.res = ('item', base, idx)
                self.emit(s2, ev)
                self.fork_raises(ev, s2)
                res.append((s2, ev.res))
        return res

    def e_JoinedStr(self, node, st):
        parts = []
        exprs = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(str(v.value))
            else:
                spec = ''
                if v.format_spec is not None and len(v.format_spec.values) and all(
                        isinstance(c, ast.Constant) for c in v.format_spec.values):
                    spec = ':' + ''.join(c.value for c in v.format_spec.values)
                if v.conversion == ord('r'):
                    spec = '!r' + spec
                parts.append(None if not spec else (spec,))
                exprs.append(v.value)
        res = []
        for s, vals in self.evs(exprs, st):
            it = iter(vals)
            tmpl, args = '', []
            for p in parts:
                if isinstance(p, str):
                    tmpl += p
                else:
                    a = next(it)
                    if is_const(a) and isinstance(a[1], (str, int)) and p is None:
                        tmpl += str(a[1])
                    elif a[0] == 'fmt' and p is None:
                        tmpl += a[1]
                        args.extend(a[2])
                    else:
                        tmpl += '{' + (norm_spec(p[0]) if p else '') + '}'
                        args.append(a)
            res.append((s, ('fmt', tmpl, tuple(args)) if args else const(tmpl)))
        return res

    def e_Starred(self, node, st):
        return [(s, ('star', v)) for s, v in self.ev(node.value, st)]

    def e_Lambda(self, node, st):
        if id(node) not in self.closures:
            fi = FuncInfo(self.fi.mod, self.fi.cls, self.fi.name + '.<lambda>', node, self.fi)
            fi.nested = True
            self.closures[id(node)] = fi
        return [(st, ('closure', id(node), st.cur))]

    def _comp(self, node, elts, st, kind):
        saved_ctx = self.ctx
        gens = node.generators
        res_states = []

        def run(i, s, out):
            if i == len(gens):
                for s2, v in self.evs(elts, s):
                    out.append((s2, v))
                return
            g = gens[i]
            for s2, it in self.ev(g.iter, s):
                elems = const_elems(it)
                el = ('elem', it, 0)
                s3 = s2.copy()
                if g.is_async:
                    self.do_await(s3, node)
                for s4 in self.assign(g.target, el, s3, node):
                    cur = [s4]
                    for c in g.ifs:
                        nxt = []
                        for x in cur:
                            for y, b in self.cond(c, x):
                                if b:
                                    nxt.append(y)
                        cur = nxt
                    for x in cur:
                        run(i + 1, x, out)
                del elems

        # exact unrolling for a single constant generator without conditions
        if len(gens) == 1:
            out = []
            for s, it in self.ev(gens[0].iter, st):
                elems = const_elems(it)
                if elems is None or len(elems) > 24:
                    out = None
                    break
                cur = [(s, ())]
                for i, el in enumerate(elems):
                    self.ctx = saved_ctx + (('ci', id(node), i),)
                    nxt = []
                    for x, acc in cur:
                        for y in self.assign(gens[0].target, el, x.copy(), node):
                            cs = [(y, True)]
                            for c in gens[0].ifs:
                                n2 = []
                                for z, b in cs:
                                    if b:
                                        n2.extend(self.cond(c, z))
                                    else:
                                        n2.append((z, b))
                                cs = n2
                            for z, b in cs:
                                if not b:
                                    nxt.append((z, acc))
                                else:
                                    for w, v in self.evs(elts, z):
                                        nxt.append((w, acc + ((v[0] if len(v) == 1 else ('tuple',) + v),)))
                    cur = nxt
                self.ctx = saved_ctx
                out.extend(cur)
            if out is not None:
                res = []
                for s, acc in out:
                    if kind == 'dict':
                        s = s.copy()
                        o = ('obj', 'dict', self.nid(node))
                        self.drop_obj(s, o)
                        for kv in acc:
                            s.setheap(o, ('item', kv[1]), kv[2])
                        s.setheap(o, '$init', ('tuple',) + acc)
                        res.append((s, o))
                    else:
                        res.append((s, ('tuple',) + acc))
                return res
        run(0, st.copy(), res_states)
        res = []
        # the empty result
        res0 = []
        self.sinks.append([])
        for s, it in self.ev(gens[0].iter, st.copy()):
            res0.append(s)
        self.sinks.pop()
        first = True
        if not res_states:
            return [(s, ('unk', self.nid(node))) for s in res0]
        for s, v in res_states:
            res.append((s, ('pure', 'comp_' + kind, v + (('unk', self.nid(node)),))))
        del first
        return res

    def e_ListComp(self, node, st):
        return self._comp(node, [node.elt], st, 'list')

    def e_SetComp(self, node, st):
        return self._comp(node, [node.elt], st, 'set')

    def e_GeneratorExp(self, node, st):
        return self._comp(node, [node.elt], st, 'gen')

    def e_DictComp(self, node, st):
        return self._comp(node, [node.key, node.value], st, 'dict')

    def e_Yield(self, node, st):
        res = []
        vals = self.ev(node.value, st) if node.value is not None else [(st, NONE)]
        for s, v in vals:
            if self.yield_cb and getattr(self.fi, 'is_cm', False):
                cb = self.yield_cb[-1]
                saved = self.yield_cb
                self.yield_cb = saved[:-1]
                try:
                    outs = cb(s, v)
                finally:
                    self.yield_cb = saved
                for o in outs:
                    if o.kind == 'next':
                        res.append((o.st, NONE))
                    else:
                        self.throw(o.st, o.val)
            else:
                s = s.copy()
                yev = Event('yield', node, self.fi, args=(v,), res=v)
                self.emit(s, yev)
                self.fork_raises(yev, s)
                res.append((s, ('res', 'yield', self.nid(node), ())))
        return res

    def e_YieldFrom(self, node, st):
        return [(s, ('res', 'yield', self.nid(node), ())) for s, _ in self.ev(node.value, st)]

    def e_Await(self, node, st):
        v = node.value
        if isinstance(v, ast.Call):
            res = []
            for s, f in self.ev(v.func, st):
                for s2, args, kw in self.ev_args(v, s):
                    res.extend(self.call(v, f, args, kw, s2, True))
            return res
        res = []
        for s, val in self.ev(v, st):
            s = s.copy()
            self.do_await(s, node)
            res.append((s, ('res', 'await', self.nid(node), ())))
        return res

    # -- calls ------------------------------------------------------------------------------
    def ev_args(self, node, st):
        '''[(state, args tuple, kw dict)]'''
        res = []
        for s, vals in self.evs([a.value if isinstance(a, ast.Starred) else a for a in node.args], st):
            args = []
            for a, v in zip(node.args, vals):
                if isinstance(a, ast.Starred):
                    el = const_elems(v)
                    if el is not None:
                        args.extend(el)
                    else:
                        args.append(('star', v))
                else:
                    args.append(v)
            for s2, kvals in self.evs([k.value for k in node.keywords], s):
                kw = {}
                for k, v in zip(node.keywords, kvals):
                    kw[k.arg or '**'] = v
                    if k.arg is None and v[0] == 'obj':
                        for (b, key), val in s2.heap.items():
                            if b == v and isinstance(key, tuple) and key[0] == 'item' and is_const(key[1]):
                                kw.setdefault(key[1][1], val)
                res.append((s2, tuple(args), kw))
        return res

    def e_Call(self, node, st):
        res = []
        # super().method
        for s, f in self.ev(node.func, st):
            for s2, args, kw in self.ev_args(node, s):
                res.extend(self.call(node, f, args, kw, s2, False))
        return res

    def resolve(self, f, st):
        '''(FuncInfo or ClassInfo, self term) for a function term, or None.'''
        if f[0] == 'func':
            fi = self.repo.entity(f[1])
            if isinstance(fi, FuncInfo):
                return fi, None
        elif f[0] == 'cls':
            ci = self.repo.entity(f[1])
            if isinstance(ci, ClassInfo):
                return ci, None
        elif f[0] == 'bound':
            base = f[1]
            if base[0] == 'super':
                ci = self.repo.entity(base[1])
                for c in self.repo.mro(ci)[1:]:
                    if f[2] in c.methods:
                        return c.methods[f[2]], base[2]
                return None
            ci = self.repo.entity(base[1]) if base[0] == 'cls' else self.class_of(base)
            if isinstance(ci, ClassInfo):
                m = self.repo.lookup_method(ci, f[2])
                if m is not None:
                    return m, base
        elif f[0] == 'closure':
            return self.closures[f[1]], f
        elif f[0] in ('attr', 'new', 'res', 'param', 'self'):
            ci = self.class_of(f)
            if ci is not None:
                m = self.repo.lookup_method(ci, '__call__')
                if m is not None:
                    return m, f
        return None

    def can_inline(self, fi):
        if len(self.stack) > self.policy.max_depth:
            return False
        if sum(1 for f in self.stack if f.node is fi.node) >= 1:
            return False
        if getattr(fi, 'nested', False):
            return fi.name.rpartition('.')[2] not in self.policy.opaque
        return self.policy.inline(fi, self)

    def bindargs(self, fi, selft, args, kw):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if fi.cls is not None and not fi.is_static and not getattr(fi, 'nested', False) and names and selft is not None:
            env[names[0]] = selft
            names = names[1:]
        star = None
        pos = []
        for x in args:
            if isinstance(x, tuple) and x and x[0] == 'star':
                star = x[1]
                break
            pos.append(x)
        for n, v in zip(names, pos):
            env[n] = v
        if star is not None:
            for i, n in enumerate(names[len(pos):]):
                env.setdefault(n, ('item', star, const(i)))
        extra = pos[len(names):]
        if a.vararg:
            env[a.vararg.arg] = ('tuple',) + tuple(extra) if star is None else ('pure', 'varargs', tuple(extra) + (star,))
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k in names or k in kwonly:
                env[k] = v
            elif k != '**':
                rest[k] = v
        if a.kwarg:
            env[a.kwarg.arg] = ('pure', 'kwargs', tuple(sorted((const(k), v) for k, v in rest.items())))
        # defaults
        allpos = a.posonlyargs + a.args
        for x, d in zip(allpos[len(allpos) - len(a.defaults):], a.defaults):
            if x.arg not in env:
                env[x.arg] = self.default_term(fi, d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.default_term(fi, d)
        for x in allpos + a.kwonlyargs:
            if x.arg not in env:
                env[x.arg] = ('param', x.arg, fi.qual)
        return env

    def default_term(self, fi, d):
        v = literal(d)
        if v is not NOLIT:
            return const(v)
        dd = self.repo.dotted_expr(fi.mod, d)
        if dd:
            e = self.repo.entity(dd)
            if isinstance(e, FuncInfo):
                return ('func', e.qual)
            if isinstance(e, ClassInfo):
                return ('cls', e.qual)
            m, _, a = dd.rpartition('.')
            mm = self.repo.modules.get(m)
            if mm is not None and a in mm.consts:
                return const(mm.consts[a])
            return ('global', dd)
        return ('unk', self.nid(d))

    def _inline(self, fi, env, st, parent, node):
        saved_ctx = self.ctx
        saved_cb = self.yield_cb
        self.ctx = self.ctx + (('c', id(node)),)
        self.yield_cb = []
        self.stack.append(fi)  # replaced below by _exec_function push
        self.stack.pop()
        try:
            return self._exec_function(fi, env, st, parent)
        finally:
            self.ctx = saved_ctx
            self.yield_cb = saved_cb

    def call(self, node, f, args, kw, st, awaited, thread=False):
        '''Returns [(state, value)]; raising outcomes go to the sink.'''
        self.stats['calls'] += 1
        # builtin/global special cases
        gname = f[1] if f[0] == 'global' else None
        if f[0] == 'partial':
            k2 = dict(f[3])
            k2.update(kw)
            return self.call(node, f[1], f[2] + args, k2, st, awaited, thread)
        if gname == 'functools.partial' and args:
            return [(st, ('partial', args[0], args[1:], tuple(sorted(kw.items()))))]
        if gname == 'trio.to_thread.run_sync' and args:
            k2 = {k: v for k, v in kw.items() if k not in ('limiter', 'cancellable', 'abandon_on_cancel', 'thread_name')}
            return self.call(node, args[0], args[1:], k2, st, True, thread=True)
        if gname in ('trio.from_thread.run', 'trio.from_thread.run_sync', 'trio.run') and args:
            k2 = {k: v for k, v in kw.items() if k not in ('trio_token', 'restrict_keyboard_interrupt_to_checkpoints', 'strict_exception_groups', 'instruments', 'clock')}
            return self.call(node, args[0], args[1:], k2, st, awaited, thread)
        if gname == 'builtins.super' and not args:
            cls = next((x.cls for x in reversed(self.stack) if x.cls is not None), None)
            selft = self.lookup('self', st)
            return [(st, ('super', cls.qual if cls else '', selft))]
        if gname in ('builtins.getattr',) and len(args) >= 2 and is_const(args[1]) and isinstance(args[1][1], str) and len(args) == 2:
            return self.getattr(st, args[0], args[1][1], node)
        if gname == 'builtins.setattr' and len(args) == 3 and is_const(args[1]):
            st = st.copy()
            self.setattr(st, args[0], args[1][1], args[2], node)
            return [(st, NONE)]
        if gname == 'contextlib.suppress':
            t = ('res', gname, self.nid(node), ())
            self.last_suppress[t] = tuple(self.term_class(a) for a in args)
            return [(st, t)]
        if gname == 'builtins.isinstance' and len(args) == 2:
            k = self.known_instance(args[0], args[1])
            if k is not None:
                return [(st, const(k))]
            return [(st, ('cmp', ('isinst', args[0], args[1]), True))]
        if gname == 'typing.cast' and len(args) == 2:
            return [(st, args[1])]
        if gname is not None and gname.startswith('builtins.') and gname[9:] in PURE_BUILTINS:
            return [(st, pure_call(gname[9:], args, kw, st))]

        tgt = self.resolve(f, st)
        if tgt is not None and isinstance(tgt[0], ClassInfo):
            return self.construct(node, tgt[0], args, kw, st)
        if f[0] == 'bound' and f[1][0] == 'obj' and tgt is None:
            pass

        name, qual, recv = self.callee_name(f, tgt)
        ev = Event('call', node, self.fi, name=name, qual=qual, recv=recv, args=args, kw=kw,
                   awaited=awaited, thread=thread, target=tgt[0] if tgt else None)
        if f[0] in ('attr', 'bound') and name == 'format' and recv is not None and (is_const(recv) or recv[0] == 'fmt'):
            v = brace_format(recv, args, kw)
            if v is not None:
                return [(st, v)]
        if name == 'start_soon' and args:
            st = st.copy()
            inner = self.resolve(args[0], st)
            n2, q2, r2 = self.callee_name(args[0], inner)
            self.emit(st, Event('spawn', node, self.fi, name=n2, qual=q2, recv=r2, args=args[1:], kw=kw,
                                target=inner[0] if inner else None, extra=args[0], res=recv))
            if getattr(self.policy, 'inline_spawn', False) and inner is not None and isinstance(inner[0], FuncInfo) and self.can_inline(inner[0]):
                return self.call(node, args[0], args[1:], {}, st, True)
            return [(st, NONE)]
        if name == 'start' and args and awaited and recv is not None and self.resolve(args[0], st) is not None:
            st = st.copy()
            inner = self.resolve(args[0], st)
            n2, q2, r2 = self.callee_name(args[0], inner)
            self.emit(st, Event('spawn', node, self.fi, name=n2, qual=q2, recv=r2, args=args[1:], kw=kw,
                                target=inner[0], extra=args[0], res=recv))
            self.do_await(st, node)
            return [(st, ('res', 'start', self.nid(node), ()))]

        if tgt is not None and isinstance(tgt[0], FuncInfo):
            fi, selft = tgt
            term = ('res', fi.qual, self.nid(node), call_args_key(args, recv))
            ev.res = term
            st = st.copy()
            pre = st.auto
            self.emit(st, ev)
            del pre
            if not (fi.is_gen and not fi.is_cm) and not fi.is_cm and self.can_inline(fi):
                if getattr(fi, 'nested', False):
                    env = self.bindargs(fi, None, args, kw)
                    parent = f[2]
                else:
                    env = self.bindargs(fi, selft if selft is not None else None, args, kw)
                    parent = None
                    if fi.cls is not None and not fi.is_static and selft is None and f[0] == 'func':
                        env = self.bindargs(fi, None, args, kw)
                res = []
                for o in self._inline(fi, env, st, parent, node):
                    if o.kind == 'return':
                        res.append((o.st, o.val))
                    else:
                        self.throw(o.st, o.val)
                if awaited and thread:
                    out = []
                    for s, v in res:
                        s = s.copy()
                        self.do_await(s, node, ev)
                        out.append((s, v))
                    res = out
                return [(s, v) for s, v in res]
            return self.opaque(node, ev, st, awaited)
        if name in ('append', 'add', 'extend', 'insert', 'appendleft') and recv is not None:
            pass
        term = ('res', qual or name, self.nid(node), call_args_key(args, recv))
        ev.res = term
        st = st.copy()
        self.emit(st, ev)
        if qual in ('sys.exit', 'builtins.exit', 'os._exit'):
            self.throw(st, ('exc', 'builtins.SystemExit', tuple(args), ()))
            return []
        return self.opaque(node, ev, st, awaited)

    def opaque(self, node, ev, st, awaited):
        if awaited:
            self.do_await(st, node, ev)
        else:
            r = ev.recv
            if r is not None and r[0] not in ('global', 'const'):
                if ev.name in MUTATING:
                    self.invalidate_content(st, r)
                    if r[0] == 'obj' and ev.name in ('update', 'clear', 'pop', 'append', 'extend'):
                        self.obj_mutate(st, r, ev)
                elif isinstance(ev.target, FuncInfo):
                    eff = effects(self.repo, ev.target)
                    if eff is None:
                        self.clobber_self(st)
                    else:
                        self.clobber_names(st, eff)
        self.fork_raises(ev, st)
        hook = getattr(self.policy, 'result', None)
        if hook is not None:
            alt = hook(ev, st, self)
            if alt is not None:
                res = []
                for s, v in alt:
                    res.append((self.emit_ret(s, ev, v), v))
                return res
        return [(self.emit_ret(st, ev, ev.res), ev.res)]

    def emit_ret(self, st, ev, val):
        r = Event('ret', ev.node, ev.fi, name=ev.name, qual=ev.qual, recv=ev.recv, args=ev.args, kw=ev.kw,
                  awaited=ev.awaited, thread=ev.thread, target=ev.target, res=val)
        self.emit(st, r)
        return st

    def obj_mutate(self, st, r, ev):
        if ev.name == 'update' and len(ev.args) == 1 and ev.args[0][0] == 'obj':
            for (b, key), val in list(st.heap.items()):
                if b == ev.args[0] and isinstance(key, tuple):
                    st.setheap(r, key, val)
        elif ev.name == 'append' and r[1] == 'list':
            init = st.heap.get((r, '$init'))
            if init is not None and len(init) < 30:
                st.setheap(r, '$init', init + (ev.args[0],) if init[0] == 'tuple' else init)
        elif ev.name in ('clear', 'pop', 'extend'):
            orig = st.heap.get((r, '$orig'))
            self.drop_obj(st, r)
            if orig is not None:
                st.setheap(r, '$orig', orig)

    def clobber_names(self, st, names):
        '''Forget what is known about the attributes *names* and, if '[]' is among them, container contents.'''
        content = '[]' in names

        def vol(t):
            if t[0] == 'attr' and t[2] in names:
                return True
            return content and t[0] in ('item', 'global') and mentions_live(t, lambda u: u[0] == 'attr')

        def bad(a):
            if content and a[0] == 'in':
                return True
            return mentions_live(a, vol)

        st.facts = {a: v for a, v in st.facts.items() if not bad(a)}
        st.heap = {k: v for k, v in st.heap.items()
                   if not (k[1] in names if isinstance(k[1], str) and not k[1].startswith('$') else content)}

    def clobber_self(self, st):
        self.clobber(st, st.epoch)

    def fork_raises(self, ev, st):
        for c in self.policy.raises(ev, self):
            s = st.copy()
            self.emit(s, Event('fault', ev.node, ev.fi, name=c.rpartition('.')[2], qual=c, recv=ev.recv, args=ev.args,
                               kw=ev.kw, target=ev.target, extra=ev.name))
            self.throw(s, ('exc', c, (), ()))

    def construct(self, node, ci, args, kw, st):
        if ci.qual not in TRUTHY and not any(self.repo.lookup_method(ci, x) for x in ('__len__', '__bool__')):
            if self.repo.bases(ci) or not ci.base_exprs or 'builtins.BaseException' in exc_mro(self.repo, ci.qual):
                TRUTHY.add(ci.qual)
        new = ('new', ci.qual, self.nid(node), tuple(args) + tuple(v for k, v in sorted(kw.items())))
        st = st.copy()
        self.drop_obj(st, new)
        ev = Event('call', node, self.fi, name=ci.name, qual=ci.qual, recv=None, args=args, kw=kw, res=new, target=ci)
        self.emit(st, ev)
        init = self.repo.lookup_method(ci, '__init__')
        if init is not None and self.can_inline(init) and not exc_like(self.repo, ci):
            res = []
            for o in self._inline(init, self.bindargs(init, new, args, kw), st, None, node):
                if o.kind == 'return':
                    res.append((o.st, new))
                else:
                    self.throw(o.st, o.val)
            return res
        # NamedTuple / dataclass fields
        if not init and ci.ann:
            names = list(ci.ann)
            for n, v in zip(names, args):
                st.setheap(new, n, v)
            for k, v in kw.items():
                st.setheap(new, k, v)
            for n in names:
                if (new, n) not in st.heap and n in ci.consts:
                    v = literal(ci.consts[n])
                    if v is not NOLIT:
                        st.setheap(new, n, const(v))
        if not exc_like(self.repo, ci):
            self.fork_raises(ev, st)
        return [(st, new)]

    def callee_name(self, f, tgt):
        '''(name, qual, recv)'''
        if tgt is not None and isinstance(tgt[0], (FuncInfo, ClassInfo)):
            e = tgt[0]
            nm = e.name.rpartition('.')[2]
            recv = tgt[1] if f[0] != 'closure' else None
            if f[0] == 'func' and isinstance(e, FuncInfo) and e.cls is not None:
                recv = None
            return nm, e.qual, recv
        if f[0] == 'global':
            return f[1].rpartition('.')[2], f[1], None
        if f[0] == 'attr':
            b = f[1]
            d = f[1][1] + '.' + f[2] if b[0] == 'global' else '?.' + f[2]
            return f[2], d, b
        if f[0] == 'bound':
            return f[2], '?.' + f[2], f[1]
        return '?', '?', f

    def term_class(self, t):
        if t[0] in ('cls', 'global'):
            return t[1]
        return 'any'


# -- pure helpers ---------------------------------------------------------------------------

def is_idempotent(name, qual):
    return False


def call_args_key(args, recv):
    k = ((recv,) if recv is not None else ()) + tuple(args)
    return k if term_size(k) <= 120 else ()


def to_load(node):
    import copy

    n = copy.copy(node)
    n.ctx = ast.Load()
    return n


def const_elems(t):
    '''Elements of a constant/tuple term, else None.'''
    if t[0] == 'tuple':
        return list(t[1:])
    if is_const(t) and isinstance(t[1], (tuple, frozenset)):
        try:
            return [const(x) for x in (sorted(t[1]) if isinstance(t[1], frozenset) else t[1])]
        except TypeError:
            return [const(x) for x in t[1]]
    if t[0] == 'pure' and t[1] in ('tuple', 'list') and len(t[2]) == 1:
        return const_elems(t[2][0])
    return None


COMM = {'Add', 'Mult', 'BitOr', 'BitAnd', 'BitXor'}


def binop(op, a, b):
    if is_const(a) and is_const(b):
        try:
            import operator as o

            fn = {'Add': o.add, 'Sub': o.sub, 'Mult': o.mul, 'FloorDiv': o.floordiv, 'Mod': o.mod,
                  'BitOr': o.or_, 'BitAnd': o.and_, 'LShift': o.lshift, 'RShift': o.rshift,
                  'Div': o.truediv, 'Pow': o.pow, 'BitXor': o.xor}.get(op)
            if fn is not None and not (op in ('LShift', 'Pow') and (abs(b[1]) > 200)) and not (
                op == 'Mult' and isinstance(a[1], (str, bytes)) and b[1] > 200) and not (
                op == 'Mult' and isinstance(b[1], (str, bytes)) and a[1] > 200):
                return const(fn(a[1], b[1]))
        except Exception:
            pass
    if op == 'Add':
        if (is_const(a) and isinstance(a[1], str)) or (is_const(b) and isinstance(b[1], str)) or a[0] == 'fmt' or b[0] == 'fmt':
            ta, aa = fmt_parts(a)
            tb, ab = fmt_parts(b)
            return ('fmt', ta + tb, aa + ab)
        if a[0] == 'tuple' and b[0] == 'tuple':
            return a + b[1:]
    if op in COMM and op != 'Add':
        a, b = sorted((a, b), key=repr)
    elif op == 'Add' and not (is_const(a) and isinstance(a[1], bytes)) and not (is_const(b) and isinstance(b[1], bytes)):
        a, b = sorted((a, b), key=repr)
    return ('pure', op, (a, b))


def fmt_parts(t):
    if is_const(t):
        return str(t[1]).replace('{', '{{') if False else str(t[1]), ()
    if t[0] == 'fmt':
        return t[1], t[2]
    return '{}', (t,)


def norm_spec(spec):
    s = spec.lstrip(':')
    if s in ('d', 's', ''):
        return ''
    return ':' + s if not s.startswith('!') else s


def percent(a, b, nid):
    import re

    tmpl = a[1]
    pre = a[2] if a[0] == 'fmt' else ()
    binary = isinstance(tmpl, bytes) or len(a) > 3 and a[0] == 'fmt'
    if isinstance(tmpl, bytes):
        tmpl = tmpl.decode('latin1')
    vals = list(b[1:]) if b[0] == 'tuple' else [b]
    out, args, pos = '', list(pre), 0
    i = 0
    try:
        for m in re.finditer(r'%(\((\w+)\))?([#0\- +]*\d*(?:\.\d+)?)([a-zA-Z%])', tmpl):
            out += tmpl[pos:m.start()]
            pos = m.end()
            if m.group(4) == '%':
                out += '%'
                continue
            if m.group(2):
                v = ('item', b, const(m.group(2)))
            else:
                v = vals[i] if i < len(vals) else ('unk', nid, i)
                i += 1
            spec = m.group(3) + (m.group(4) if m.group(4) not in ('s', 'd') or m.group(3) else '')
            if is_const(v) and isinstance(v[1], (str, int)) and not spec:
                out += str(v[1])
            elif v[0] == 'fmt' and not spec:
                out += v[1]
                args.extend(v[2])
            else:
                out += '{' + (':' + spec if spec else '') + '}'
                args.append(v)
        out += tmpl[pos:]
    except Exception:
        return ('unk', nid)
    if binary:
        return ('fmt', out, tuple(args), 'bytes') if args else const(out.encode('latin1'))
    return ('fmt', out, tuple(args)) if args else const(out)


def brace_format(recv, args, kw):
    import string

    tmpl = recv[1]
    if not isinstance(tmpl, str) or recv[0] == 'fmt':
        return None
    out, vals = '', []
    auto = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(tmpl):
            out += lit
            if field is None:
                continue
            if field == '':
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                return None
            if is_const(v) and not spec and isinstance(v[1], (str, int)):
                out += str(v[1])
            else:
                out += '{' + (norm_spec(spec) if spec else '') + '}'
                vals.append(v)
    except Exception:
        return None
    return ('fmt', out, tuple(vals)) if vals else const(out)


def pure_call(name, args, kw, st):
    if name in ('list', 'tuple') and len(args) == 1:
        el = const_elems(args[0])
        if el is not None:
            return ('tuple',) + tuple(el)
    if name in ('int', 'str', 'len', 'bytes', 'bool', 'float') and len(args) == 1 and is_const(args[0]) and not kw:
        try:
            return const(getattr(_bi, name)(args[0][1]))
        except Exception:
            pass
    if name == 'bool' and len(args) == 1:
        if args[0][0] in ('cmp', 'not'):
            return args[0]
        return ('not', ('not', args[0]))
    if name == 'str' and len(args) == 1:
        return ('fmt', '{}', (args[0],))
    if name == 'range' and all(is_const(a) for a in args) and args:
        try:
            r = range(*[a[1] for a in args])
            if len(r) <= 16:
                return ('tuple',) + tuple(const(i) for i in r)
        except Exception:
            pass
    if name == 'len' and len(args) == 1 and args[0][0] == 'tuple':
        return const(len(args[0]) - 1)
    extra = tuple(('tuple', const(k), v) for k, v in sorted(kw.items()))
    if name in ('min', 'max') and len(args) > 1:
        args = tuple(sorted(args, key=repr))
    return ('pure', name, tuple(args) + extra)


def exc_like(repo, ci):
    return 'builtins.BaseException' in exc_mro(repo, ci.qual)


KNOWN_EXC = {
    'trio.Cancelled': ('builtins.BaseException',),
    'trio.TrioInternalError': ('builtins.Exception',),
    'ssl.SSLError': ('builtins.OSError', 'builtins.Exception'),
    'ssl.SSLCertVerificationError': ('ssl.SSLError', 'builtins.OSError', 'builtins.Exception'),
    'ssl.SSLZeroReturnError': ('ssl.SSLError',),
    'ssl.SSLEOFError': ('ssl.SSLError',),
    'ssl.SSLSyscallError': ('ssl.SSLError',),
    'ssl.SSLWantReadError': ('ssl.SSLError',),
    'ssl.SSLWantWriteError': ('ssl.SSLError',),
    'httpcore.ConnectTimeout': ('httpcore.TimeoutException', 'builtins.Exception'),
    'httpcore.ReadTimeout': ('httpcore.TimeoutException', 'builtins.Exception'),
    'httpcore.WriteTimeout': ('httpcore.TimeoutException', 'builtins.Exception'),
    'httpcore.ConnectError': ('httpcore.NetworkError', 'builtins.Exception'),
    'httpcore.ReadError': ('httpcore.NetworkError', 'builtins.Exception'),
    'httpcore.WriteError': ('httpcore.NetworkError', 'builtins.Exception'),
    'socket.timeout': ('builtins.TimeoutError', 'builtins.OSError', 'builtins.Exception'),
    'socket.gaierror': ('builtins.OSError', 'builtins.Exception'),
    'subprocess.CalledProcessError': ('subprocess.SubprocessError', 'builtins.Exception'),
    'json.JSONDecodeError': ('builtins.ValueError', 'builtins.Exception'),
    'json.decoder.JSONDecodeError': ('builtins.ValueError', 'builtins.Exception'),
    'binascii.Error': ('builtins.ValueError', 'builtins.Exception'),
    'apsw.BusyError': ('apsw.Error', 'builtins.Exception'),
    'struct.error': ('builtins.Exception',),
    'zlib.error': ('builtins.Exception',),
    'lzma.LZMAError': ('builtins.Exception',),
    'h11.RemoteProtocolError': ('h11.ProtocolError', 'builtins.Exception'),
    'h11.LocalProtocolError': ('h11.ProtocolError', 'builtins.Exception'),
    'builtins.IOError': ('builtins.OSError', 'builtins.Exception'),
    'builtins.EnvironmentError': ('builtins.OSError', 'builtins.Exception'),
}


def exc_mro(repo, dotted):
    c = getattr(repo, '_excmro', None)
    if c is None:
        c = repo._excmro = {}
    if dotted in c:
        return c[dotted]
    c[dotted] = frozenset()
    out = {dotted}
    if dotted.startswith('builtins.'):
        k = getattr(_bi, dotted[9:], None)
        if isinstance(k, type):
            out |= {'builtins.' + x.__name__ for x in k.__mro__}
    elif dotted in KNOWN_EXC:
        out |= set(KNOWN_EXC[dotted]) | {'builtins.BaseException'}
        for b in KNOWN_EXC[dotted]:
            out |= exc_mro(repo, b)
    else:
        e = repo.entity(dotted)
        if isinstance(e, ClassInfo):
            for b in e.base_exprs:
                d = repo.dotted_expr(e.mod, b)
                if d:
                    out |= exc_mro(repo, d)
        elif dotted != 'any':
            last = dotted.rpartition('.')[2]
            if last.endswith(('Error', 'Exception', 'Exit')) or dotted.partition('.')[0] in (
                'trio', 'apsw', 'h11', 'ssl', 'socket', 'pyfuse3', 'cryptography', 'oauthlib', 'google',
            ):
                out |= {'builtins.Exception', 'builtins.BaseException'}
    c[dotted] = frozenset(out)
    return c[dotted]


def stable_attrs(repo):
    '''Attribute names that are assigned only in __init__ methods (or class bodies).'''
    r = getattr(repo, '_stable', None)
    if r is not None:
        return r
    stored, unstable = set(), set()
    for m in repo.modules.values():
        for fn in ast.walk(m.tree):
            if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            for n in walk_own(fn):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    stored.add(n.attr)
                    init = fn.name in ('__init__', '__post_init__', '__new__') and isinstance(n.value, ast.Name) and n.value.id == 'self'
                    if not init:
                        unstable.add(n.attr)
    alln = set()
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute):
                alln.add(n.attr)
    r = repo._stable = frozenset(alln - unstable)
    return r


def is_record(ci):
    '''Is this a class whose annotated names are per-instance fields?'''
    return any(decorator_name(d) == 'dataclass' for d in ci.node.decorator_list) or any(
        (isinstance(b, ast.Name) and b.id == 'NamedTuple') or (isinstance(b, ast.Attribute) and b.attr == 'NamedTuple') for b in ci.node.bases)


def attr_assigned(repo, name):
    r = getattr(repo, '_assigned', None)
    if r is None:
        r = set()
        for m in repo.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    r.add(n.attr)
        repo._assigned = r
    return name in r


def global_written(mod, name):
    r = getattr(mod, '_gw', None)
    if r is None:
        r = set()
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Global):
                r |= set(n.names)
        mod._gw = r
    return name in r


def compute_lastuse(fnode):
    '''(name -> position where the variable is read last (loops extend to their end), statement -> position of its end).

    Positions count nodes in the order of the tree: statements that were moved here keep the line numbers of where they were written.
    '''
    lu = {}
    nested = set()
    ends = {}
    order = {}
    n = 0

    def number(node):
        nonlocal n
        n += 1
        order[id(node)] = n
        for c in ast.iter_child_nodes(node):
            number(c)
        if isinstance(node, ast.stmt):
            n += 1
            ends[id(node)] = n

    number(fnode)

    def visit(node, loop_end):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                for x in ast.walk(c):
                    if isinstance(x, ast.Name):
                        nested.add(x.id)
                    elif isinstance(x, (ast.Nonlocal,)):
                        nested.update(x.names)
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Load, ast.Del)):
                lu[c.id] = max(lu.get(c.id, 0), loop_end or order[id(c)])
            elif isinstance(c, ast.Name):
                lu.setdefault(c.id, 0)
            le = loop_end
            if isinstance(c, (ast.For, ast.AsyncFor, ast.While)) and not loop_end:
                le = ends[id(c)] - 0.5  # still live after the last statement of the body
            if isinstance(c, ast.AugAssign) and isinstance(c.target, ast.Name):
                lu[c.target.id] = max(lu.get(c.target.id, 0), loop_end or order[id(c)])
            visit(c, le)

    visit(fnode, 0)
    # variables in try/finally: reads in handlers come later in the tree, so positions suffice
    for x in nested:
        lu[x] = 10 ** 9
    lu['self'] = 10 ** 9
    return lu, ends


def short_event(ev):
    r = (show(ev.recv) + '.') if ev.recv is not None else ''
    a = ', '.join([show(x) for x in ev.args] + ['%s=%s' % (k, show(v)) for k, v in ev.kw.items()])
    if len(a) > 100:
        a = a[:97] + '...'
    if ev.kind == 'setattr':
        return 'set %s%s = %s' % (r, ev.name, show(ev.res))
    return '%s %s%s(%s)' % (ev.kind, r, ev.name, a)

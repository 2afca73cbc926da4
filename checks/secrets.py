'''S10: secrets.'''

from __future__ import annotations

import ast
import builtins
import stat as statmod

from sa.baseline import known_functions
from sa.interp import NONE, cval, is_const, show, subterms
from sa.repo import AnalysisError, walk_own

from . import check
from .storage import Trace, TraceMonitor, is_res, kwarg, res_args, sviol
from .storage3 import NEVER, OwnPolicy, list_contents, setval, src_functions

COMPRENC = 's3ql.backends.comprenc.AsyncComprencBackend'
# Names of parameters and attributes that hold secrets.
NAMES = {'password', 'passphrase', 'backend_password', 'fs_passphrase', 'backend_passphrase', 'bearer', 'auth_token', 'refresh_token',
         'signing_key', 'wrap_pw', 'data_pw', 'access_token', 'client_secret_value'}
KEYS = {'access_token', 'refresh_token', 'x-auth-token', 'x-subject-token', 'x-auth-key', 'password', 'passphrase', 'backend-password',
        'fs-passphrase', 'backend_password', 'fs_passphrase'}
PASS = {'encode', 'decode', 'strip', 'rstrip', 'lstrip', 'lower', 'upper', 'replace', 'join', 'format', 'hex', 'fromhex', 'quote', 'quote_plus',
        'unquote', 'urlencode', 'dumps', 'b64encode', 'b64decode', 'split', 'splitlines', 'sub', 'repr', 'str', 'bytes', 'bytearray', 'list', 'dict',
        'sorted', 'tuple', 'copy', 'items', 'values', 'pop', 'get', 'setdefault', 'sha256', 'sha1', 'sha512', 'md5', 'hexdigest', 'digest', 'zip',
        'ascii', 'reversed', 'removesuffix', 'removeprefix', 'title', 'memoryview', 'ljust', 'rjust', 'zfill', 'hexlify', 'loads', 'asdict', 'astuple', 'vars',
        'enumerate', 'map', 'filter', 'pformat'}
ORDER = ('sorted', 'list', 'tuple', 'set', 'enumerate', 'reversed', 'join')      # of a mapping: the keys
CLEAN_OPS = ('len', 'bool', 'isinstance', 'type', 'id', 'hash', 'hasattr', 'callable', 'not', 'cmp')
LOG = ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log')
FILES = ('write', 'writelines', 'write_text', 'write_bytes', 'dump')
STORES = ('store', 'write_fh')
SHOWN = ('s3ql.mkfs', 's3ql.oauth_client')      # commands whose purpose is to show a key on the terminal


def low(t):
    return cval(t).lower() if t is not None and is_const(t) and isinstance(cval(t), str) else None


def is_dataclass(ci):
    for d in ci.node.decorator_list:
        d = d.func if isinstance(d, ast.Call) else d
        n = d.attr if isinstance(d, ast.Attribute) else getattr(d, 'id', '')
        if n.endswith('dataclass') or n in ('define', 'frozen'):
            return not any(isinstance(x, ast.FunctionDef) and x.name in ('__repr__', '__str__') for x in ci.node.body)
    return False


class SecretPolicy(OwnPolicy):
    '''One function, with the exceptions that it handles.'''
    max_states = 600
    max_returns = 600

    def __init__(self, fi, repo):
        super().__init__()
        self.at = {}
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Try):
                names = []
                for h in n.handlers:
                    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    for t in ts[:2]:
                        names.append(self.exc(repo, fi, t))
                for b in n.body:
                    for c in ast.walk(b):
                        if isinstance(c, (ast.Call, ast.Subscript)):
                            self.at.setdefault(id(c), tuple(dict.fromkeys(names)))
        if len(self.at) > 40:
            self.at = {}

    @staticmethod
    def exc(repo, fi, t):
        if isinstance(t, ast.Name) and isinstance(getattr(builtins, t.id, None), type):
            return 'builtins.' + t.id
        d = repo.dotted_expr(fi.mod, t) if isinstance(t, (ast.Name, ast.Attribute)) else None
        return repo.canonical(d) or d if d else 'builtins.Exception'

    def raises(self, ev, eng):
        if ev.kind in ('call', 'getitem') and ev.node is not None:
            return self.at.get(id(ev.node), ())[:2]
        return ()


class AllMonitor(TraceMonitor):
    '''Also log messages.'''
    skip = ()

    def __init__(self):
        self.nodes = {}

    def step(self, auto, ev, st, eng):
        if ev.kind in ('call', 'raise') and ev.node is not None:
            self.nodes[id(ev.node)] = (ev.node, ev.fi)
        if ev.kind not in ('call', 'setitem', 'setattr', 'getitem', 'raise'):
            return auto
        return super().step(auto, ev, st, eng)

    def branch(self, auto, atom, val, st, eng):
        if any(s[0] == 'attr' and s[2] == 'passphrase' for s in subterms(atom)):
            return super().branch(auto, atom, val, st, eng)
        return auto


class Secrets:
    def __init__(self, ctx):
        self.ctx = ctx
        self.params = {}        # (function, parameter) holding secrets
        self.attrs = set()      # (class, attribute)
        self.rets = set()       # functions returning secrets
        self.tuples = {}        # positions in returned tuples
        self.more = []
        self._keyed = None

    def roles(self, tr):
        '''Values that are used as secrets on a path.'''
        out = set()
        for e in tr.ev:
            if e.kind != 'call':
                if e.kind == 'setattr' and e.name in NAMES and setval(e) is not None:
                    out.add(setval(e))
                continue
            if e.qual and (e.qual == COMPRENC + '.create' or e.res and e.res[0] == 'new' and e.res[1] == COMPRENC):
                out.add(kwarg(e, 0, 'passphrase'))
            elif e.name == 'store' and low(kwarg(e, 0, 'key')) and low(kwarg(e, 0, 'key')).startswith('s3ql_passphrase'):
                out.add(kwarg(e, 1, 'val'))
            elif e.name == 'new' and e.qual == 'hmac.new' and e.args:
                out.add(e.args[0])
            elif e.name in ('getpass',):
                out.add(e.res)
            elif e.qual in self.keyed_by():
                out.add(kwarg(e, *self.keyed_by()[e.qual]))
        out = {t for t in out if t is not None and not is_const(t)}
        src = set()
        for t in out:
            src.add(t)
            for s in subterms(t):
                if is_res(s, 'readline', 'getpass', 'read', 'input'):
                    src.add(s)
        return src

    def keyed_by(self):
        '''Functions of the repository that use a parameter as a key.'''
        if self._keyed is None:
            self._keyed = {}
            for f in src_functions(self.ctx):
                for n in walk_own(f.node):
                    if isinstance(n, ast.Call) and n.args and isinstance(n.args[0], ast.Name) and self.ctx.repo.dotted_expr(f.mod, n.func) in (
                            'hmac.new', 'hmac.digest'):
                        ps = [a.arg for a in f.node.args.args]
                        if n.args[0].id in ps and f.cls is None:
                            self._keyed[f.qual] = (ps.index(n.args[0].id), n.args[0].id)
        return self._keyed

    def reader(self, fi):
        '''Does the function read a passphrase?'''
        for n in walk_own(fi.node):
            if isinstance(n, (ast.Name, ast.Attribute)) and (getattr(n, 'id', None) or getattr(n, 'attr', None)) == 'getpass':
                return True
        return False

    def tainted(self, t, tr, i, roles, fi, depth=0):
        if t is None or not isinstance(t, tuple) or not t or depth > 25:
            return False

        def rec(x):
            return self.tainted(x, tr, i, roles, fi, depth + 1)
        if t in roles:
            return True
        k = t[0]
        if k in ('const', 'global', 'cmp', 'not', 'unk', 'cls', 'self', 'func', 'exc'):
            return False
        if k == 'param':
            return t[1] in NAMES or (t[2], t[1]) in self.params
        if k == 'attr':
            if t[2] in NAMES:
                return True
            if t[1][0] in ('self', 'new') and (t[1][1], t[2]) in self.attrs:
                return True
            if t[2] == 'headers':
                return rec(t[1]) or self.keyed(t, tr)
            if t[2] == 'token' and any(s[0] == 'attr' and s[2] == 'adc' for s in subterms(t[1])):
                return True
            return False
        if k == 'item':
            key = low(t[2])
            if is_const(t[2]) and isinstance(cval(t[2]), int) and t[1][0] == 'res' and t[1][1] in self.tuples:
                return cval(t[2]) in self.tuples[t[1][1]]
            if key in KEYS:
                return True
            if self.config(t[1]) and key != 'storage-url':
                return True
            same = [e.args[1] for e in tr.ev[:i] if e.kind == 'setitem' and e.recv == t[1] and e.args[0] == t[2]]
            if same:
                return rec(same[-1])
            if key is not None:
                vals = [e.args[1] for e in tr.ev[:i] if e.kind == 'setitem' and e.recv == t[1] and low(e.args[0]) == key]
                return bool(vals) and rec(vals[-1])
            if is_const(t[2]) and t[1][0] in ('obj', 'res', 'param') and not isinstance(cval(t[2]), int):
                return False
            return rec(t[1])
        if k == 'elem':
            return rec(t[1]) if t[1][0] in ('res', 'pure', 'tuple', 'obj') and not (t[1][0] == 'obj' and t[1][1] == 'dict') else False
        if k in ('tuple', 'fmt', 'star'):
            return any(rec(x) for x in (t[2] if k == 'fmt' else t[1:]) if isinstance(x, tuple))
        if k == 'pure':
            if t[1] in CLEAN_OPS or t[1] in ('Eq', 'NotEq', 'Lt', 'Gt', 'LtE', 'GtE', 'In', 'NotIn', 'Is', 'IsNot'):
                return False
            return any(rec(x) for x in t[2] if not (t[1] in ORDER and self.mapping(x, tr)))
        if k == 'obj':
            if t[1] == 'list':
                c = list_contents(tr, t)
                if c is not None and any(rec(x) for x in c):
                    return True
            init = tr.o.st.heap.get((t, '$init'))
            if init is not None and any(rec(x) for x in init[1:] if isinstance(x, tuple)):
                return True
            return self.changed(t, tr, i, rec) or self.keyed(t, tr)
        if k == 'new':
            ci = self.ctx.repo.cls(t[1], optional=True) if t[1] else None
            if ci is not None and is_dataclass(ci):
                for e in tr.ev:
                    if e.kind == 'call' and e.res == t:
                        return any(rec(x) for x in list(e.args) + [v for _, v in e.kw])
            return self.changed(t, tr, i, rec)
        if k == 'res':
            name = t[1].rpartition('.')[2]
            if name == 'getpass':
                return True
            if name == '_prompt_credential':
                a = res_args(t)
                return not (a and low(a[0]) and 'login' in low(a[0]))
            if name in ('readline', 'input'):
                return self.reader(fi) and t in roles
            if t[1] in self.rets or self.keyed(t, tr):
                return True
            if self.config(t):
                return True
            if name in ('validate_python', 'from_file') or t[1] == 's3ql.authinfo.Authinfo':
                return True
            if t[1] in known_functions() and t[1].startswith('s3ql.'):
                if name not in ('sha256', 'split_by_n', 'b64_encode', 'b64_decode', 'escape', 'pick', 'pretty_print_size'):
                    return False
            elif name not in PASS:
                return False
            if name in ('get', 'pop') and len(res_args(t)) > 1:
                return rec(('item', res_args(t)[0], res_args(t)[1])) or any(rec(x) for x in res_args(t)[2:])
            if name in ('digest', 'hexdigest') and res_args(t) and is_res(res_args(t)[0], 'new', 'hmac'):
                return False
            if any(rec(x) for x in res_args(t) if not (name in ORDER and self.mapping(x, tr))):
                return True
            for e in tr.ev:
                if e.kind == 'call' and e.res == t:
                    return any(rec(x) for x in [v for _, v in e.kw])
            return self.keyed(t, tr)
        return False

    def mapping(self, t, tr):
        return t[0] == 'obj' and t[1] == 'dict' or self.keyed(t, tr)

    def changed(self, t, tr, i, rec):
        for e in tr.ev[:i]:
            if e.recv == t and (e.kind == 'setitem' and rec(e.args[1]) or e.kind == 'call' and e.name in (
                    'append', 'extend', 'update', 'add', 'insert', 'setdefault', 'write') and any(rec(x) for x in e.args)):
                return True
        return False

    def keyed(self, t, tr):
        '''Is an element with a secret taken out of the value?'''
        for e in tr.ev:
            if e.kind == 'getitem' or e.kind == 'call' and e.name in ('get', 'pop'):
                if e.args and low(e.args[0]) in KEYS | {'token'} and e.recv is not None:
                    r = e.recv
                    if low(e.args[0]) == 'token' and not any(x.kind == 'getitem' and x.args and low(x.args[0]) in ('id',) and x.recv == e.res for x in tr.ev):
                        continue
                    while True:
                        if r == t:
                            return True
                        if r[0] == 'item':
                            r = r[1]
                        else:
                            break
        return False

    def config(self, t):
        '''Values from the credentials file.'''
        if is_res(t, 'items', 'get', 'values') or t[0] == 'item':
            b = res_args(t)[0] if t[0] == 'res' and res_args(t) else t[1]
            k = res_args(t)[1] if t[0] == 'res' and len(res_args(t)) > 1 else t[2] if t[0] == 'item' else None
            if k is not None and is_const(k) and low(k) == 'storage-url':
                return False
            return any(is_res(s, 'ConfigParser', 'RawConfigParser') for s in subterms(b) if isinstance(b, tuple) and s[0] == 'res') and isinstance(b, tuple)
        return False

    def text_args(self, e):
        '''Arguments that end up in the text of an exception.'''
        q = e.res[1] if e.res and e.res[0] in ('new', 'exc') else e.qual
        ci = self.ctx.repo.cls(q, optional=True) if q else None
        args = list(e.args) + [v for _, v in e.kw]
        if ci is None:
            return args
        ini = self.ctx.repo.lookup_method(ci, '__init__')
        st = self.ctx.repo.lookup_method(ci, '__str__')
        if ini is None:
            return args
        ps = [a.arg for a in ini.node.args.args[1:]] + [a.arg for a in ini.node.args.kwonlyargs]
        given = dict(zip(ps, e.args))
        given.update(dict(e.kw))
        shown = set()
        used = {n.attr for n in ast.walk(st.node) if isinstance(n, ast.Attribute)} if st else set()
        for n in ast.walk(ini.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and t.attr in used:
                        shown |= {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == '__init__':
                for a in list(n.args) + [k.value for k in n.keywords]:
                    shown |= {x.id for x in ast.walk(a) if isinstance(x, ast.Name)}
        return [v for p, v in given.items() if p in shown]

    def sink(self, e, fi):
        '''(what, values)'''
        r = show(e.recv) if e.recv is not None else ''
        if e.kind == 'call':
            if e.name in LOG and (e.qual or '').split('.')[0] != '?' and ('log' in (e.qual or '') or 'warnings' in (e.qual or '')) or e.name in LOG and (
                    r.endswith('log') or r.endswith('logger')):
                return 'log message', list(e.args) + [v for k, v in e.kw if k != 'exc_info']
            if e.name == 'print':
                if fi.mod.name in SHOWN and not any(k == 'file' for k, _ in e.kw):
                    return None
                return 'output', list(e.args)
            if e.name in FILES and not (e.qual or '').startswith('s3ql.') and (e.recv is None or e.recv[0] not in ('obj',)):
                if e.recv is not None and any(is_res(s, 'BytesIO', 'StringIO') or s[0] == 'new' and 'BytesIO' in str(s[1]) for s in subterms(e.recv)):
                    return None
                return 'file', list(e.args)
        elif e.kind == 'raise':
            return 'exception', None
        return None

    def examine(self, fi):
        '''Report flows from secrets to sinks in one function, and record where secrets go from there.'''
        ctx = self.ctx
        pol = SecretPolicy(fi, ctx.repo)
        try:
            mon = AllMonitor()
            eng, outs = ctx.run(fi, pol, mon)
        except AnalysisError:
            return 0
        n = 0
        bad = {}
        roles = set()
        for o in outs:
            roles |= self.roles(Trace(o))
        for o in outs:
            tr = Trace(o)
            for i, e in enumerate(tr.ev):
                s = self.sink(e, fi)
                if s is not None:
                    n += 1
                    vals = s[1]
                    if vals is None:
                        mk = [x for x in tr.ev[:i] if x.kind == 'call' and x.res is not None and x.res[0] == 'new' and x.res == e.res]
                        mk = mk or [x for x in tr.ev[:i] if x.kind == 'call' and x.res is not None and x.res[0] == 'new' and x.name == e.name][-1:]
                        vals = self.text_args(mk[-1]) if mk else list(e.args)
                    if any(self.tainted(v, tr, i, roles, fi) for v in vals):
                        bad.setdefault((s[0], e.node), (o, e, s[0]))
                if e.kind == 'call' and e.name in STORES:
                    v = [x for x in list(e.args)[1:] + [v for k, v in e.kw if k in ('val', 'fh')]][:1]
                    if v and self.tainted(v[0], tr, i, roles, fi):
                        n += 1
                        if not self.encrypting(tr, i, e, roles, fi):
                            bad.setdefault(('store', e.node), (o, e, 'object that is not encrypted'))
                self.follow(tr, i, e, roles, fi)
            if o.kind == 'return' and o.val is not None and o.val[0] == 'tuple':
                for k, x in enumerate(o.val[1:]):
                    old = self.tuples.setdefault(fi.qual, set())
                    if k not in old and self.tainted(x, tr, len(tr.ev), roles, fi):
                        old.add(k)
                        self.rets.add(fi.qual)
                        self.more.append(fi.qual)
            elif o.kind == 'return' and self.tainted(o.val, tr, len(tr.ev), roles, fi) and fi.qual not in self.rets:
                if o.val != NONE:
                    self.rets.add(fi.qual)
                    self.more.append(fi.qual)
        for o, e, what in bad.values():
            ctx.violate('leak', fi.qual, '%s puts a secret into a%s %s' % (fi.short, 'n' if what[0] in 'aeiou' else '', what), self.loc(mon, fi, e))
        if not bad and n:
            ctx.ok('leak', fi.qual)
        return n

    def loc(self, mon, fi, e):
        node, f = mon.nodes.get(e.node, (fi.node, fi))
        return (f or fi).loc(node)

    def encrypting(self, tr, i, e, roles, fi):
        r = e.recv
        if r is None:
            return False
        if is_res(r, 'create') or r[0] == 'new':
            for x in tr.ev[:i]:
                if x.kind == 'call' and x.res == r:
                    p = kwarg(x, 0, 'passphrase')
                    return p is not None and p != NONE and tr.isnone(p) is not True
        for x in tr.ev[:i]:
            if x.kind == 'setattr' and x.name == 'passphrase' and x.recv == r:
                return setval(x) != NONE
        a = ('attr', r, 'passphrase')
        return tr.val(('true', a), i) is True or any(f[0] == 'true' and v and f[1][0] == 'attr' and f[1][:3] == a for f, v in tr.facts())

    def follow(self, tr, i, e, roles, fi):
        if e.kind == 'setattr' and e.recv is not None and e.recv[0] == 'self' and e.name not in NAMES:
            if self.tainted(setval(e), tr, i, roles, fi) and (e.recv[1], e.name) not in self.attrs:
                if not (fi.cls and e.name in ('backend',)):
                    self.attrs.add((e.recv[1], e.name))
        if e.kind != 'call':
            return
        g = self.ctx.repo.func(e.qual, optional=True) if e.qual and e.qual.startswith('s3ql.') else None
        if g is None and e.res and e.res[0] == 'new':
            ci = self.ctx.repo.cls(e.res[1], optional=True)
            g = self.ctx.repo.lookup_method(ci, '__init__') if ci is not None else None
        if g is None or g.qual not in known_functions():
            return
        ps = [a.arg for a in g.node.args.args]
        if ps and ps[0] in ('self', 'cls'):
            ps = ps[1:]
        given = list(zip(ps, e.args)) + [(k, v) for k, v in e.kw]
        for p, v in given:
            if p not in NAMES and (g.qual, p) not in self.params and self.tainted(v, tr, i, roles, fi):
                self.params[(g.qual, p)] = fi.qual
                self.more.append(g.qual)


def wanted(fi):
    '''Could the function hold a secret?'''
    for n in ast.walk(fi.node):
        s = getattr(n, 'id', None) or getattr(n, 'attr', None) or getattr(n, 'arg', None)
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            s = n.value.lower()
        if isinstance(s, str) and (s in NAMES or s in KEYS or s in ('getpass', 'ConfigParser', '_prompt_credential', 'readline', 'token', 'sha256', '_Token', 'from_file',
                                                                     'authinfo', '_auth', '_authenticate', '_ensure_token')):
            return True
    return False


def mask(t, param=None):
    '''Value of a constant mode.'''
    if is_const(t) and isinstance(cval(t), int):
        return cval(t)
    if t[0] == 'global' and t[1].startswith('stat.'):
        return getattr(statmod, t[1][5:], None)
    if t[0] == 'pure' and t[1] == 'BitOr':
        vs = [mask(x) for x in t[2]]
        return None if None in vs else vs[0] | vs[1]
    return None


def perm_rules(ctx):
    n = 0
    for f in src_functions(ctx):
        if not any(isinstance(c, ast.Attribute) and c.attr in ('ConfigParser', 'RawConfigParser') or isinstance(c, ast.Name) and c.id == 'ConfigParser'
                   for c in walk_own(f.node)):
            continue
        eng, outs = ctx.run(f, OwnPolicy(), TraceMonitor())
        for o in outs:
            tr = Trace(o)
            bad = None
            for i, e in enumerate(tr.ev):
                if e.kind == 'call' and e.name in ('read', 'read_file', 'read_string') and e.recv is not None and any(
                        is_res(s, 'ConfigParser', 'RawConfigParser') for s in subterms(e.recv)):
                    n += 1
                    name = e.args[0]
                    seen = 0
                    for a, v in tr.facts(i):
                        for s in subterms(a):
                            if s[0] == 'pure' and s[1] == 'BitAnd':
                                m = [mask(x) for x in s[2]]
                                k = m[0] if m[0] is not None else m[1]
                                src = s[2][1] if m[0] is not None else s[2][0]
                                if k is None or not any(is_res(y, 'stat') and any(z == name for z in res_args(y)) for y in subterms(src)):
                                    continue
                                if a == ('true', s) and v is False or a[0] == 'eq' and v and any(is_const(x) and cval(x) == 0 for x in a[1:]):
                                    seen |= k
                    if seen & 0o044 != 0o044:
                        bad = 'reads the credentials file although others may read it, too'
            if bad:
                sviol(ctx, 'perm', f, eng, o, bad, bad)
            else:
                ctx.ok('perm', f.qual)
    if not n:
        ctx.floor('perm', NEVER)


def cachedir_rules(ctx):
    n = 0
    fi = ctx.repo.func('s3ql.parse_args.init_cachedir')
    p = ('param', fi.node.args.args[0].arg, fi.qual)
    eng, outs = ctx.run(fi, OwnPolicy(), TraceMonitor())
    for o in outs:
        tr = Trace(o)
        bad = None
        made = None
        for i, e in enumerate(tr.ev):
            if e.kind != 'call' or not any(p in subterms(a) for a in list(e.args) + ([e.recv] if e.recv else [])):
                continue
            if e.name in ('mkdir', 'makedirs'):
                n += 1
                m = kwarg(e, 1 if e.recv is None or e.args and e.args[0] == p else 0, 'mode')
                m = mask(m) if m is not None else 0o777
                made = m
                if m is None or m & 0o077:
                    um = [x for x in tr.ev[:i] if x.kind == 'call' and x.name == 'umask' and x.args and (mask(x.args[0]) or 0) & 0o077 == 0o077]
                    if not um:
                        bad = 'creates a cache directory that others can enter'
            elif e.name in ('chmod', 'fchmod', 'lchmod'):
                m = mask(e.args[-1])
                if m is None or m & 0o077:
                    bad = 'lets others enter the cache directory'
                elif made is not None:
                    bad = bad and None
        if bad:
            sviol(ctx, 'cachedir', fi, eng, o, bad, bad)
        else:
            ctx.ok('cachedir', fi.qual)
    if not n:
        ctx.floor('cachedir', NEVER)
    # every command makes its cache directory there
    for f in src_functions(ctx):
        if f.qual == fi.qual or f.qual not in known_functions():
            continue
        for c in walk_own(f.node):
            if isinstance(c, ast.Call) and ctx.repo.dotted_expr(f.mod, c.func) in ('os.mkdir', 'os.makedirs') and c.args and any(
                    isinstance(x, ast.Name) and x.id == 'cachedir' or isinstance(x, ast.Attribute) and x.attr == 'cachedir' for x in ast.walk(c.args[0])):
                m = [k.value for k in c.keywords if k.arg == 'mode'] + list(c.args[1:2])
                if not m or not isinstance(m[0], ast.Constant) or m[0].value & 0o077:
                    ctx.violate('cachedir', f.qual, '%s creates a cache directory that others can enter' % f.short, f.loc(c))


@check('S10', explanation='''Interprocedural flow analysis: secrets (passphrases, passwords, tokens, keys, and values used as such) are followed through
the paths of every function that can hold one, through calls, attributes and results, to log messages, exception texts, output, files and
unencrypted objects; permission tests dominate reading the credentials file; modes of created cache directories.''')
def s10(ctx):
    ctx.rule('leak', 'secrets reach no log message, exception text, file or unencrypted object')
    ctx.rule('perm', 'the credentials file is read only if others cannot read it')
    ctx.rule('cachedir', 'cache directories are created for their owner only')
    sec = Secrets(ctx)
    todo = [f.qual for f in src_functions(ctx) if wanted(f)]
    done = {}
    total = 0
    while todo:
        q = todo.pop(0)
        state = (tuple(sorted(p for (f, p) in sec.params if f == q)), len(sec.rets), len(sec.attrs))
        if done.get(q) == state:
            continue
        done[q] = state
        f = ctx.repo.func(q, optional=True)
        if f is None or f.qual not in known_functions():
            continue
        total += sec.examine(f)
        todo += sec.more
        sec.more = []
    if total < 20:
        ctx.floor('leak', NEVER)
    perm_rules(ctx)
    cachedir_rules(ctx)
    for r in ctx.rules:
        ctx.floor(r)

'''S08 - S13: network connections, credentials, local files.'''

from __future__ import annotations

import ast

from sa.baseline import known_functions
from sa.interp import NONE, TRUE, cval, const, is_const, show, subterms
from sa.lib import is_attr, last
from sa.repo import AnalysisError, walk_own

from . import check
from .storage import LocalPolicy, Trace, TraceMonitor, dict_items, exc_name, flat_add, is_res, item, kwarg, mention, mget, res_args, sviol
from .storage2 import B, HTTP, PRIMS, NetPolicy, backends, elem_of, impossible, own

CONN = HTTP + '.HTTPConnection'
POOL = HTTP + '.Pool'
NEVER = 10 ** 6


def me(ci):
    return ('self', ci.qual)


def src_functions(ctx, prefix='s3ql.'):
    return [f for f in ctx.repo.all_functions() if f.mod.name.startswith(prefix) and '.tests' not in f.mod.name]


def called(ctx, fi, call):
    '''Canonical name of what a call expression calls.'''
    d = ctx.repo.dotted_expr(fi.mod, call.func) if isinstance(call.func, (ast.Name, ast.Attribute)) else None
    return ctx.repo.canonical(d) or d if d else None


def constructs(ctx, quals, prefix='s3ql.'):
    '''Functions that create an instance of one of the classes.'''
    out = []
    for fi in src_functions(ctx, prefix):
        for n in walk_own(fi.node):
            if isinstance(n, ast.Call) and called(ctx, fi, n) in quals:
                if fi not in out:
                    out.append(fi)
    return out


def new_calls(tr, *quals):
    return [(i, e) for i, e in enumerate(tr.ev) if e.kind == 'call' and e.res and e.res[0] == 'new' and e.res[1] in quals]


class OwnPolicy(LocalPolicy):
    '''Looks at one function only.'''
    stable = frozenset(('ssl_context', 'proxy', 'hostname', 'port', 'options', 'status'))
    while_iters = 2
    loop_iters = 1
    max_states = 40000
    max_returns = 40000

    def __init__(self, faults=None):
        self.faults = faults or {}

    def inline(self, fi, eng):
        return fi.qual not in known_functions()

    def raises(self, ev, eng):
        return self.faults.get(ev.name, ())


# -------------------------------------------------------------------------------------------
# S08

CTX_MAKERS = ('ssl.SSLContext', 'ssl.create_default_context', 'ssl._create_unverified_context', 'ssl._create_stdlib_context',
              'ssl._create_default_https_context', 'ssl.wrap_socket')


def s08_context(ctx):
    q = B + 'common.get_ssl_context'
    fi = ctx.repo.func(q)
    for f in src_functions(ctx):
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and called(ctx, f, n) in CTX_MAKERS:
                if f.qual == q or f.qual not in known_functions() and f.mod.name == fi.mod.name:
                    continue
                ctx.violate('verify', f.qual, '%s creates a TLS configuration of its own' % f.short, f.loc(n))
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, ast.Attribute) and t.attr in ('check_hostname', 'verify_mode'):
                        v = ctx.repo.dotted_expr(f.mod, n.value) if isinstance(n.value, (ast.Name, ast.Attribute)) else None
                        if t.attr == 'verify_mode' and v in ('ssl.CERT_REQUIRED', 'ssl.VerifyMode.CERT_REQUIRED') or t.attr == \
                                'check_hostname' and isinstance(n.value, ast.Constant) and n.value.value is True:
                            ctx.ok('verify', f.qual)
                        else:
                            ctx.violate('verify', f.qual, '%s weakens the verification of certificates' % f.short, f.loc(n))
    eng, outs = ctx.run(fi, LocalPolicy(), TraceMonitor())
    path = ('param', fi.node.args.args[0].arg, fi.qual)
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        v = o.val
        bad = None
        if is_res(v, 'create_default_context'):
            pass
        elif not is_res(v, 'SSLContext') and not (v[0] == 'new' and v[1] == 'ssl.SSLContext'):
            bad = 'returns something else than a TLS configuration'
        elif not any('PROTOCOL_TLS_CLIENT' in show(a) or 'PROTOCOL_TLS_CLIENT' in repr(a) for a in res_args(v)):
            bad = 'creates a configuration that does not verify certificates and host names'
        none = tr.isnone(path)
        if none is None:
            t = tr.val(('true', path))
            none = None if t is None else not t
        ld = [e for i, e in tr.calls('load_verify_locations') if e.recv == v]
        df = [e for i, e in tr.calls('set_default_verify_paths', 'load_default_certs') if e.recv == v]
        cdc = [a for a in res_args(v)] if is_res(v, 'create_default_context') else []
        if bad is None:
            if none is False or none is None:
                if not (ld and any(mention(a, path) for a in list(ld[-1].args) + [x for _, x in ld[-1].kw])) and not any(mention(a, path) for a in cdc):
                    bad = 'ignores the configured certificate authorities'
                elif df:
                    bad = 'accepts other certificate authorities than the configured ones'
            elif not df and not is_res(v, 'create_default_context'):
                bad = 'does not load any certificate authorities'
        if bad:
            sviol(ctx, 'verify', fi, eng, o, bad, bad)
        else:
            ctx.ok('verify', fi.qual)


def kwarg_of(tr, i, pos, name):
    '''Argument of a call, also if it is passed in a dictionary.'''
    e = tr.ev[i]
    v = kwarg(e, pos, name)
    more = dict(e.kw).get('**')
    if v is None and more is not None:
        for k, x, _ in dict_items(tr, more, i):
            if k == const(name):
                v = x
    return v


def truth(tr, t, upto=None):
    v = tr.val(('true', t), upto)
    if v is None:
        n = tr.isnone(t, upto)
        v = None if n is None else not n
    return v


class ConnectPolicy(OwnPolicy):
    def inline(self, fi, eng):
        return fi.cls is not None and fi.cls.qual == CONN and fi.name not in ('aclose', 'reset', '_raise_dns_disambiguated') or \
            fi.qual not in known_functions()


def s08_connect(ctx):
    ci = ctx.repo.cls(CONN)
    fi = ctx.repo.func(CONN + '.connect')
    eng, outs = ctx.run(fi, ConnectPolicy(), TraceMonitor())
    s = me(ci)
    sslc, proxy = ('attr', s, 'ssl_context'), ('attr', s, 'proxy')
    n = 0
    for o in outs:
        if o.kind != 'return':
            continue
        n += 1
        tr = Trace(o)
        bad = None
        tls = truth(tr, sslc)
        px = truth(tr, proxy)
        tcp = [(i, e) for i, e in tr.calls('connect_tcp')]
        st = [(i, e) for i, e in tr.calls('start_tls')]
        if len(tcp) != 1:
            bad = 'does not open exactly one connection'
        else:
            i, e = tcp[0]
            host, port = kwarg(e, 0, 'host'), kwarg(e, 1, 'port')
            if px is None:
                bad = 'does not look at the proxy setting'
            elif px and (host, port) != (('item', proxy, const(0)), ('item', proxy, const(1))):
                bad = 'does not connect to the configured proxy'
            elif not px and (host, port) != (('attr', s, 'hostname'), ('attr', s, 'port')):
                bad = 'does not connect to the server'
            stores = [(j, x) for j, x in enumerate(tr.ev) if x.kind == 'setattr' and x.name == '_stream' and j > i]
            final = setval(stores[-1][1]) if stores else None
            if bad:
                pass
            elif tls is None:
                bad = 'does not look at the TLS setting'
            elif tls:
                if len(st) != 1:
                    bad = 'continues without TLS'
                else:
                    j, x = st[0]
                    if kwarg(x, 0, 'ssl_context') != sslc:
                        bad = 'uses another TLS configuration than the one of the connection'
                    elif kwarg(x, 1, 'server_hostname') != ('attr', s, 'hostname'):
                        bad = 'does not verify the name of the server'
                    elif final != x.res:
                        bad = 'does not use the encrypted connection'
                    elif x.recv != e.res and not is_attr(x.recv, '_stream'):
                        bad = 'encrypts another connection'
            elif final != e.res:
                bad = 'does not use the new connection'
            if bad is None and px and tls:
                w = [x for k, x in tr.calls('write', upto=st[0][0])]
                ok = [a for a, v in tr.facts() if v and a[0] == 'eq' and const(200) in a[1:]]
                if not w or not ok:
                    bad = 'does not establish a tunnel through the proxy'
                elif not all('CONNECT' in repr(x.args) and mention_all(x.args, ('attr', s, 'hostname')) for x in w):
                    bad = 'sends something else than the address of the server to the proxy'
            elif bad is None and tr.calls('write'):
                bad = 'sends data while connecting'
        if bad:
            sviol(ctx, 'tls', fi, eng, o, bad, bad)
        else:
            ctx.ok('tls', fi.qual)
    if not n:
        ctx.floor('tls', NEVER)
    # requests are only sent over a connection made by connect()
    for f in all_in(ctx, HTTP):
        for n in walk_own(f.node):
            if isinstance(n, ast.Attribute) and n.attr == '_stream' and isinstance(n.ctx, ast.Store) and f.qual in known_functions():
                if f.name in ('__init__', 'connect', '_tunnel', 'aclose', 'reset'):
                    continue
                ctx.violate('tls', f.qual, '%s replaces the connection' % f.short, f.loc(n))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('connect_tcp', 'open_tcp_stream') and \
                    f.qual != fi.qual and f.qual in known_functions():
                ctx.violate('tls', f.qual, '%s opens a connection' % f.short, f.loc(n))


def mention_all(args, t):
    return any(mention(a, t) for a in args)


def all_in(ctx, modname):
    return [f for f in ctx.repo.all_functions() if f.mod.name == modname]


def setval(e):
    return e.args[0] if e.args else None


def disabled(tr, upto):
    '''Did the user (or, for the storage URL, the server) choose a plain connection on the path?'''
    for a, v in tr.facts(upto):
        if v and a[0] == 'in' and a[1] == const('no-ssl') and ('options' in show(a[2])):
            return 'option'
        if not v and a[0] == 'isnone' and is_res(a[1], 'get') and const('no-ssl') in res_args(a[1]):
            return 'option'
        if v and a[0] == 'true' and is_res(a[1], 'get') and const('no-ssl') in res_args(a[1]):
            return 'option'
        if v and a[0] == 'eq' and const('http') in a[1:] and any(is_attr(x, 'scheme') for x in a[1:]):
            return 'scheme'
    return None


def ssl_ok(ctx, tr, i, t, ci):
    '''Problem with the TLS configuration *t* of a connection, or None.'''
    if t == NONE:
        return None if disabled(tr, i) else 'uses no TLS although it was not disabled'
    if is_attr(t, 'ssl_context'):
        src = t[1]
        if src[0] in ('self', 'param') or is_res(src, '_authenticate') or src[0] == 'new':
            if disabled(tr, i) == 'option' and src[0] == 'self' and 'swift' in ci.mod.name and False:
                return None
            return None
    if t[0] == 'param' and t[1] == 'ssl_context':
        return None
    if is_res(t, 'get_ssl_context'):
        return None
    return 'uses an unknown TLS configuration'


def proxy_ok(tr, i, p, s):
    '''Problem with the proxy *p* of a connection with TLS configuration *s*, or None.'''
    if p is None or p == NONE:
        return 'ignores the configured proxy'
    if is_attr(p, 'proxy') and is_attr(s, 'ssl_context') and p[1] == s[1]:
        return None
    if p[0] == 'param' and p[1] == 'proxy':
        return None
    if is_res(p, 'get_proxy'):
        c = [e for _, e in tr.calls('get_proxy') if e.res == p]
        a = (kwarg(c[-1], 0, 'ssl') if c else None) or NONE
        if a == ('cmp', ('isnone', s), False) or a == ('cmp', ('true', s), True) or is_res(a, 'bool') and res_args(a)[-1] == s:
            return None
        if is_const(a):
            want = False if s == NONE else truth(tr, s, i)
            if want is None and (is_res(s, 'get_ssl_context') or s[0] == 'attr' and s[1][0] == 'self'):
                want = True
            if want is not None and bool(cval(a)) == want:
                return None
        if a[0] == 'pure' and a[1] == 'not':
            return None if a[2][0] == ('cmp', ('isnone', s), True) else 'uses the proxy of the other kind of connection'
    return 'uses the proxy of the other kind of connection'


def s08_sites(ctx):
    n = 0
    for fi in constructs(ctx, (CONN, POOL)):
        ci = fi.cls
        if fi.mod.name == HTTP:
            continue
        eng, outs = ctx.run(fi, OwnPolicy(), TraceMonitor())
        for o in outs:
            tr = Trace(o)
            for i, e in new_calls(tr, CONN, POOL):
                n += 1
                s = kwarg_of(tr, i, 2 if e.res[1] == CONN else 99, 'ssl_context') or NONE
                p = kwarg_of(tr, i, 3 if e.res[1] == CONN else 99, 'proxy')
                bad = ssl_ok(ctx, tr, i, s, ci) or proxy_ok(tr, i, p, s)
                if bad:
                    sviol(ctx, 'sites', fi, eng, o, bad, bad)
                else:
                    ctx.ok('sites', fi.qual)
                if s[0] == 'param':
                    for f, c in callers(ctx, fi):
                        check_arg(ctx, fi, f, c, s[1])
    if not n:
        ctx.floor('sites', NEVER)
    # results of the authentication
    auth = B + 'swift._AuthResult'
    m = 0
    for fi in constructs(ctx, (auth,)):
        eng, outs = ctx.run(fi, OwnPolicy(), TraceMonitor())
        for o in outs:
            tr = Trace(o)
            for i, e in new_calls(tr, auth):
                m += 1
                s = kwarg_of(tr, i, 2, 'ssl_context') or NONE
                http = [v for a, v in tr.facts(i) if a[0] == 'eq' and const('http') in a[1:] and any(is_attr(x, 'scheme') for x in a[1:])]
                bad = ssl_ok(ctx, tr, i, s, fi.cls)
                if s != NONE and http and http[-1]:
                    bad = bad or 'uses TLS for a plain storage URL'
                https = [v for a, v in tr.facts(i) if a[0] == 'eq' and const('https') in a[1:] and any(is_attr(x, 'scheme') for x in a[1:])]
                if s == NONE and https and https[-1]:
                    bad = 'uses no TLS for an https storage URL'
                if bad:
                    sviol(ctx, 'sites', fi, eng, o, bad, bad)
                else:
                    ctx.ok('sites', fi.qual)
    if not m:
        ctx.floor('sites', NEVER)
    # the pool and the connection use the settings given to them
    for q in (POOL, CONN):
        fi = ctx.repo.func(q + '.__init__')
        eng, outs = ctx.run(fi, LocalPolicy(), TraceMonitor())
        for o in outs:
            for a in ('ssl_context', 'proxy', 'hostname'):
                w = [setval(e) for e in o.st.auto if e.kind == 'setattr' and e.name == a]
                if not w or w[-1] != ('param', a, fi.qual):
                    sviol(ctx, 'sites', fi, eng, o, 'does not keep the setting ' + a, a)
                else:
                    ctx.ok('sites', fi.qual)
        for f in all_in(ctx, HTTP):
            for n in walk_own(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in ('ssl_context', 'proxy') and f.name != '__init__':
                    ctx.violate('sites', f.qual, '%s changes the %s of a connection' % (f.short, n.attr), f.loc(n))
    k = 0
    for fi in [f for f in constructs(ctx, (CONN,), HTTP) if f.cls and f.cls.qual == POOL]:
        eng, outs = ctx.run(fi, OwnPolicy(), TraceMonitor())
        for o in outs:
            for i, e in new_calls(Trace(o), CONN):
                k += 1
                s = ('self', POOL)
                if [kwarg(e, j, x) for j, x in enumerate(('hostname', 'port', 'ssl_context', 'proxy'))] != [
                        ('attr', s, x) for x in ('hostname', 'port', 'ssl_context', 'proxy')]:
                    sviol(ctx, 'sites', fi, eng, o, 'creates a connection with other settings than the ones of the pool', 'settings')
                else:
                    ctx.ok('sites', fi.qual)
    if not k:
        ctx.floor('sites', NEVER)


def callers(ctx, fi):
    for f in src_functions(ctx):
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name)) and (
                    n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id) == fi.name:
                yield f, n


def only_from(ctx, f, pred, depth=0):
    '''A function that was added later and that is called by functions with this property only.'''
    if f.qual in known_functions() or depth > 4:
        return False
    cs = [c for c, _ in callers(ctx, f)]
    return bool(cs) and all(pred(c) or only_from(ctx, c, pred, depth + 1) for c in cs)


def check_arg(ctx, fi, f, call, name):
    pos = [a.arg for a in fi.node.args.args if a.arg != 'self'].index(name)
    v = call.args[pos] if pos < len(call.args) else next((k.value for k in call.keywords if k.arg == name), None)
    if isinstance(v, ast.Attribute) and v.attr == 'ssl_context' or isinstance(v, ast.Name) and v.id == 'ssl_context':
        ctx.ok('sites', f.qual)
    else:
        ctx.violate('sites', f.qual, '%s gives no TLS configuration to %s' % (f.short, fi.name), f.loc(call))


def s08_init(ctx):
    n = 0
    for fi in src_functions(ctx, B):
        st = [x for x in walk_own(fi.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in (
            'ssl_context', 'proxy') and isinstance(x.value, ast.Name) and x.value.id == 'self']
        if not st or not fi.cls:
            continue
        eng, outs = ctx.run(fi, OwnPolicy(), TraceMonitor())
        for o in outs:
            if o.kind != 'return':
                continue
            tr = Trace(o)
            cur = None
            for i, e in enumerate(tr.ev):
                if e.kind != 'setattr' or e.recv[0] != 'self':
                    continue
                bad = None
                v = setval(e)
                if e.name == 'ssl_context':
                    n += 1
                    cur = v
                    if v == NONE:
                        if disabled(tr, i) != 'option':
                            bad = 'disables TLS although the user did not ask for it'
                    elif not is_res(v, 'get_ssl_context'):
                        bad = 'uses another TLS configuration'
                    else:
                        c = [x for _, x in tr.calls('get_ssl_context') if x.res == v]
                        a = (kwarg(c[-1], 0, 'path') if c else None) or const(0)
                        if not any(x == const('ssl-ca-path') for x in subterms(a)) and not (a == NONE and any(
                                const('ssl-ca-path') in subterms_list(f) for f, _ in tr.facts(i))):
                            bad = 'ignores the configured certificate authorities'
                elif e.name == 'proxy':
                    bad = proxy_ok(tr, i, v, cur if cur is not None else ('attr', e.recv, 'ssl_context'))
                else:
                    continue
                if bad:
                    sviol(ctx, 'settings', fi, eng, o, bad, bad)
                else:
                    ctx.ok('settings', fi.qual)
    if not n:
        ctx.floor('settings', NEVER)
    fi = ctx.repo.func(B + 'common.get_proxy')
    par = ('param', fi.node.args.args[0].arg, fi.qual)
    eng, outs = ctx.run(fi, LocalPolicy(), TraceMonitor())
    m = 0
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        t = truth(tr, par)
        names = [const('https_proxy')] if t else [const('http_proxy')] if t is False else []
        bad = None
        if not names:
            bad = 'does not distinguish plain and encrypted connections'
        elif o.val == NONE:
            m += 1
            ok = [1 for a, v in tr.facts() if a[0] == 'in' and not v and a[1] in names and 'environ' in show(a[2]) or (
                a[0] == 'isnone' and v or a[0] == 'true' and not v) and any(x in names for x in subterms(a[1]))]
            if not ok:
                bad = 'ignores the configured proxy'
        elif o.val[0] == 'tuple' and len(o.val) == 3:
            m += 1
            if not any(x in names for x in subterms(o.val[1])):
                bad = 'does not return the configured proxy'
            elif not (any(x in names for x in subterms(o.val[2])) or is_const(o.val[2])):
                bad = 'does not return the configured port'
        else:
            bad = 'returns something else than an address'
        if bad:
            sviol(ctx, 'settings', fi, eng, o, bad, bad)
        else:
            ctx.ok('settings', fi.qual)
    if not m:
        ctx.floor('settings', NEVER)


def subterms_list(f):
    return [x for t in f[1:] if isinstance(t, tuple) for x in subterms(t)]


@check('S08', explanation='''Every place that creates a TLS configuration, a connection or a connection pool is located and the values given to it
on every path are derived: the TLS configuration verifies certificates and host names, is omitted only on paths on which the no-ssl option is
present or the authenticated server named a plain storage URL, and comes together with the proxy for that kind of connection. Every path through
connection establishment that has a TLS configuration performs the TLS handshake with it and the server's name before anything but the proxy's
CONNECT request is sent.''')
def s08(ctx):
    ctx.rule('verify', 'TLS configurations verify certificates and host names')
    ctx.rule('tls', 'connections with a TLS configuration are encrypted before they are used')
    ctx.rule('sites', 'connections are created with the TLS configuration and proxy of their backend')
    ctx.rule('settings', 'TLS and proxy settings follow the options of the user')
    s08_context(ctx)
    s08_connect(ctx)
    s08_sites(ctx)
    s08_init(ctx)
    for r in ctx.rules:
        ctx.floor(r)


# -------------------------------------------------------------------------------------------
# S09

class YieldPolicy(OwnPolicy):
    '''The code that uses a context manager may fail.'''
    stable = frozenset()

    def raises(self, ev, eng):
        return ('builtins.Exception', 'trio.Cancelled') if ev.kind == 'yield' else self.faults.get(ev.name, ())


H11_FAULT = ('h11.RemoteProtocolError',)


def is_state(a, attr, name):
    '''Is the fact a comparison of a protocol state with the named constant?'''
    return a[0] in ('is', 'eq') and any(is_attr(x, attr) for x in a[1:]) and any(x[0] == 'global' and last(x[1]) == name for x in a[1:])


def state_facts(fs, attr):
    out = {}
    for a, v in fs:
        if a[0] in ('is', 'eq') and any(is_attr(y, attr) for y in a[1:]):
            out.update({last(x[1]): v for x in a[1:] if x[0] == 'global'})
        elif a[0] == 'in' and is_attr(a[1], attr) and a[2][0] in ('tuple', 'set', 'list'):
            els = [last(x[1]) for x in a[2][1:] if isinstance(x, tuple) and x[0] == 'global']
            if not v or len(els) == 1:
                out.update({k: v for k in els})
            else:
                out['/'.join(els)] = True
    return out


def event_type(fs, ev):
    '''What is known about the type of a protocol event.'''
    out = {}
    for a, v in fs:
        if a[0] == 'isinst' and a[1] == ev:
            for x in (a[2][1:] if a[2][0] == 'tuple' else (a[2],)):
                n = last(str(x[1])) if len(x) > 1 else '?'
                out[n] = out.get(n, False) or v
        elif a[0] == 'is' and ev in a[1:]:
            for x in a[1:]:
                if x[0] == 'global':
                    out[last(x[1])] = v
    return out


def s09_pool(ctx):
    fi = ctx.repo.func(POOL + '.get')
    eng, outs = ctx.run(fi, YieldPolicy(), TraceMonitor())
    n = 0
    for o in outs:
        tr = Trace(o)
        y = [i for i, e in enumerate(tr.ev) if e.kind == 'yield']
        if not y:
            continue
        n += 1
        conn = tr.ev[y[0]].args[0]
        app = [i for i, e in enumerate(tr.ev) if e.kind == 'call' and e.name in ('append', 'insert', 'appendleft', 'add') and conn in e.args]
        clo = [i for i, e in tr.calls('aclose') if e.recv == conn]
        bad = None
        if not app and not clo:
            bad = 'neither closes the connection nor keeps it for reuse'
        elif app and clo:
            bad = 'keeps a closed connection for reuse'
        elif len(app) > 1:
            bad = 'keeps a connection twice'
        elif app:
            fs = [(e.recv, e.res) for e in tr.ev[y[0]:app[0]] if e.kind == 'if']
            if app[0] < y[0] or ('true', ('attr', conn, 'is_idle')) not in [a for a, v in fs if v]:
                bad = 'keeps a connection for reuse that may be in use or broken'
            elif ('true', ('attr', ('self', POOL), '_closed')) not in [a for a, v in fs if not v]:
                bad = 'keeps a connection although the pool has been closed'
        if bad:
            sviol(ctx, 'reuse', fi, eng, o, bad, bad)
        else:
            ctx.ok('reuse', fi.qual)
    if not n:
        ctx.floor('reuse', NEVER)
    fi = ctx.repo.func(POOL + '._pop_conn')
    eng, outs = ctx.run(fi, OwnPolicy(), TraceMonitor())
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        bad = None
        if o.val[0] == 'new' and o.val[1] == CONN:
            pass
        elif not (is_res(o.val, 'pop', 'popleft') and '_idle' in show(res_args(o.val)[0])):
            bad = 'returns a connection that may be in use'
        else:
            k = max(i for i, e in tr.calls('pop', 'popleft') if e.res == o.val)
            if ('true', ('attr', o.val, 'is_idle')) not in [e.recv for e in tr.ev[k:] if e.kind == 'if' and e.res]:
                bad = 'returns a connection without testing that it can be used'
        if bad:
            sviol(ctx, 'reuse', fi, eng, o, bad, bad)
        else:
            ctx.ok('reuse', fi.qual)
    for f in all_in(ctx, HTTP):
        if f.qual not in known_functions() or f.cls and f.cls.qual == POOL and f.name in ('__init__', 'get', '_pop_conn', 'aclose'):
            continue
        for x in walk_own(f.node):
            if isinstance(x, ast.Attribute) and x.attr == '_idle':
                ctx.violate('reuse', f.qual, '%s accesses the idle connections' % f.short, f.loc(x))
    fi = ctx.repo.func(CONN + '.is_idle')
    eng, outs = ctx.run(fi, OwnPolicy(), TraceMonitor())
    s = ('self', CONN)
    for o in outs:
        if o.kind != 'return' or is_const(o.val) and not cval(o.val):
            continue
        tr = Trace(o)
        fs = list(tr.facts())
        if o.val[0] == 'cmp':
            fs.append((o.val[1], o.val[2]))
        bad = None
        if not any(v is False and a == ('isnone', ('attr', s, '_stream')) or v and a == ('true', ('attr', s, '_stream')) for a, v in fs):
            bad = 'there is no connection'
        elif (('true', ('attr', s, '_body_aborted')), False) not in fs:
            bad = 'a request body was not transferred completely'
        elif not any(v and is_state(a, 'our_state', 'IDLE') for a, v in fs):
            bad = 'a request has not been sent completely'
        elif not any(v and is_state(a, 'their_state', 'IDLE') for a, v in fs):
            bad = 'a response has not been received completely'
        if bad:
            sviol(ctx, 'reuse', fi, eng, o, 'considers a connection reusable although possibly ' + bad, bad)
        else:
            ctx.ok('reuse', fi.qual)


def s09_cycle(ctx):
    fi = ctx.repo.func(CONN + '._finish_cycle')
    eng, outs = ctx.run(fi, OwnPolicy(), TraceMonitor())
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        fs = list(tr.facts())
        ours, theirs = state_facts(fs, 'our_state'), state_facts(fs, 'their_state')
        snc = tr.calls('start_next_cycle')
        new = [e for e in tr.ev if e.kind == 'setattr' and e.name == '_h11']
        bad = None
        if snc and not (ours.get('DONE') and theirs.get('DONE')):
            bad = 'starts a new cycle although the previous one may not be complete'
        elif new and not ours.get('SEND_BODY'):
            bad = 'resets the protocol state although a request may have been sent partially'
        elif not snc and not new and not any(
                v and set(k.split('/')) <= {'MUST_CLOSE', 'CLOSED'} for x in (ours, theirs) for k, v in x.items()):
            bad = 'ends in an unknown protocol state'
        if bad:
            sviol(ctx, 'cycle', fi, eng, o, bad, bad)
        else:
            ctx.ok('cycle', fi.qual)
    for name in ('read', '_make_response'):
        fi = ctx.repo.func(CONN + '.' + name)
        eng, outs = ctx.run(fi, OwnPolicy({'_next_event': H11_FAULT + (HTTP + '.ConnectionClosed',), 'next_event': H11_FAULT}), TraceMonitor())
        m = 0
        for o in outs:
            tr = Trace(o)
            bad = None
            fin = [i for i, e in tr.calls('_finish_cycle')]
            for i in fin:
                ev = [e.res for _, e in tr.calls('_next_event', 'next_event', upto=i)]
                et = event_type(list(tr.facts(i)), ev[-1]) if ev else {}
                if not (et.get('EndOfMessage') or et.get('PAUSED')):
                    bad = 'takes a response for complete before its end was received'
            if o.kind == 'return' and name == '_make_response':
                m += 1
                w = [setval(e) for e in tr.ev if e.kind == 'setattr' and e.name == '_response_open']
                if not fin and (not w or w[-1] != TRUE):
                    bad = 'does not note that the response has to be read'
            elif o.kind == 'return':
                m += 1
                ev = [e.res for _, e in tr.calls('_next_event')]
                et = event_type(list(tr.facts()), ev[-1]) if ev else {}
                op = tr.val(('true', ('attr', ('self', CONN), '_response_open')))
                if is_const(o.val) and not cval(o.val):
                    if not fin and op is not False:
                        bad = 'reports the end of the response before it was received'
                elif not ev or not et.get('Data') or not mention(o.val, ('attr', ev[-1], 'data')):
                    bad = 'returns something else than received data'
                elif tr.val(('true', ('attr', ev[-1], 'data'))) is not True and not any(
                        a[0] in ('lt', 'eq') and mention(('tuple',) + a[1:], ('attr', ev[-1], 'data')) for a, v in tr.facts()):
                    bad = 'may return an empty buffer before the end of the response'
            if bad:
                sviol(ctx, 'cycle', fi, eng, o, bad, bad)
            else:
                ctx.ok('cycle', fi.qual)
        if not m:
            ctx.floor('cycle', NEVER)


def s09_request(ctx):
    fi = ctx.repo.func(CONN + '.send_request')
    cc = HTTP + '.ConnectionClosed'
    flt = {'_stream_body': (cc, HTTP + '.StateError', HTTP + '.ConnectionTimedOut'), '_read_response': (cc,)}
    eng, outs = ctx.run(fi, OwnPolicy(flt), TraceMonitor())
    s = ('self', CONN)
    body = ('param', 'body', fi.qual)
    n = 0
    for o in outs:
        tr = Trace(o)
        bad = None
        snd = [(i, e) for i, e in tr.calls('_send_event')]
        if snd:
            i = snd[0][0]
            fs = list(tr.facts(i))
            ours, theirs = state_facts(fs, 'our_state'), state_facts(fs, 'their_state')
            if (('true', ('attr', s, '_body_aborted')), False) not in fs:
                bad = 'uses a connection on which a body was not transferred completely'
            elif not ours.get('IDLE'):
                bad = 'sends a request before the previous one has been sent completely'
            elif not theirs.get('IDLE') and not (theirs.get('MUST_CLOSE') is False and theirs.get('CLOSED') is False):
                bad = 'uses a connection that the server is closing'
            elif (('true', ('attr', s, '_response_open')), False) not in fs:
                bad = 'sends a request before the previous response was read'
        req = mk(tr, snd[0][1]) if snd else None
        if snd and bad is None:
            if not (req and 'Request' in repr(req)[:200]):
                bad = 'sends something else than a request first'
        sb = [(i, e) for i, e in tr.calls('_stream_body')]
        cl = [e for i, e in enumerate(tr.ev) if e.kind == 'setitem' and str(cval(e.args[0]) if is_const(e.args[0]) else '').lower() == 'content-length']
        eom = [i for i, e in snd if 'EndOfMessage' in repr(mk(tr, e))[:200]]
        rr = [i for i, e in tr.calls('_read_response')]
        fault = [(i, e) for i, e in enumerate(tr.ev) if e.kind == 'fault']
        b = tr.val(('true', body))
        if bad is None and snd:
            if not cl or not (is_res(cl[-1].args[1], 'str') or cl[-1].args[1][0] == 'pure' or cl[-1].args[1][0] == 'fmt'):
                bad = 'does not announce the length of the body'
            elif sb and not mention(cl[-1].args[1], kwarg(sb[0][1], 1, 'total')):
                bad = 'sends another amount of data than announced'
        if bad is None and o.kind == 'return':
            n += 1
            if not rr or o.val != tr.ev[rr[-1]].res:
                bad = 'returns something else than the response of the server: %s' % (show(o.val),)
            elif sb:
                f = [e for i, e in fault if i > sb[0][0] and e.node == sb[0][1].node]
                if f and not eng.is_sub(str(f[0].res), cc):
                    bad = 'continues after an error while sending the body'
                elif f:
                    st = [i for i, e in enumerate(tr.ev) if e.kind == 'setattr' and e.name == '_body_aborted' and setval(e) == TRUE]
                    if not st or st[0] > rr[-1]:
                        bad = 'does not note that the connection cannot be used again'
                elif not eom or eom[-1] < sb[0][0] or rr[-1] < eom[-1]:
                    bad = 'does not finish the request before reading the response'
                ex = tr.val(('true', ('param', 'expect100', fi.qual)))
                if bad is None and ex and not [i for i in rr if i < sb[0][0]]:
                    bad = 'does not wait for the server to accept the body'
                if bad is None and not kwarg(sb[0][1], 0, 'body') == body:
                    bad = 'sends another body'
            elif b is not False and b is not None:
                # the server declined the body
                if not [1 for a, v in tr.facts() if a[0] == 'eq' and not v and const(100) in a[1:] and any(is_attr(x, 'status') for x in a[1:])]:
                    bad = 'does not send the body'
            elif not eom or eom[-1] > rr[-1]:
                bad = 'does not finish the request before reading the response'
        if bad:
            sviol(ctx, 'request', fi, eng, o, bad, bad)
        else:
            ctx.ok('request', fi.qual)
    if not n:
        ctx.floor('request', NEVER)


def mk(tr, e):
    '''The protocol event that is sent: (constructor call).'''
    a = e.args[0] if e.args else NONE
    c = [x for x in tr.ev if x.kind == 'call' and x.res == a]
    return (c[-1].name, c[-1].qual, a) if c else a


def sub_of(t):
    '''(base, subtracted terms) of a chain of subtractions.'''
    out = []
    while t[0] == 'pure' and t[1] == 'Sub':
        out.append(t[2][1])
        t = t[2][0]
    return t, out


def s09_body(ctx):
    # one item that is a file
    fi = ctx.repo.func(CONN + '._stream_file')
    eng, outs = ctx.run(fi, OwnPolicy(), TraceMonitor())
    rem = ('param', fi.node.args.args[2].arg, fi.qual)
    fh = ('param', fi.node.args.args[1].arg, fi.qual)
    for o in outs:
        tr = Trace(o)
        bad = None
        sk = [i for i, e in tr.calls('seek') if e.recv == fh and e.args and e.args[0] == const(0)]
        rd = [(i, e) for i, e in tr.calls('read') if e.recv == fh]
        if rd and (not sk or sk[0] > rd[0][0]):
            bad = 'does not send the file from its start'
        cur = rem
        for j, (i, e) in enumerate(rd):
            end = rd[j + 1][0] if j + 1 < len(rd) else len(tr.ev)
            lim = e.args[0] if e.args else NONE
            if not (is_res(lim, 'min') and cur in res_args(lim) or lim[0] == 'pure' and lim[1] == 'min' and cur in lim[2] or lim == cur):
                bad = bad or 'reads more than the announced amount of data'
            snd = [x for _, x in tr.calls('_send_event', upto=end) if tr.ev.index(x) > i]
            if tr.val(('true', e.res), end) is False:
                continue
            if len(snd) != 1 or not mention(('tuple',) + tuple(v for x in tr.ev[i:end] if x.kind == 'call' and x.res == snd[0].args[0]
                                                            for v in list(x.args) + [w for _, w in x.kw]), e.res):
                bad = bad or 'does not send exactly the data that was read'
            cur = ('pure', 'Sub', (cur, ('pure', 'len', (e.res,))))
        if o.kind == 'return' and bad is None:
            if o.val != cur:
                bad = 'reports another amount of data than was sent'
            elif not (rd and tr.val(('true', rd[-1][1].res)) is False) and tr.val(('lt', const(0), cur)) is not False:
                bad = 'stops before the end of the file'
        if bad:
            sviol(ctx, 'length', fi, eng, o, bad, bad)
        else:
            ctx.ok('length', fi.qual)
    fi = ctx.repo.func(CONN + '._stream_body')
    pol = OwnPolicy()
    pol.loop_iters = 2
    eng, outs = ctx.run(fi, pol, TraceMonitor())
    body, total = (('param', a.arg, fi.qual) for a in fi.node.args.args[1:3])
    n = 0
    for o in outs:
        tr = Trace(o)
        bad = None
        cur = total
        its = [i for i, e in enumerate(tr.ev) if e.kind == 'iter'] + [len(tr.ev)]
        fin = cur
        for a, b in zip(its, its[1:]):
            it = tr.ev[a].res
            ln = ('pure', 'len', (it,))
            snd = [x for i, x in tr.calls('_send_event') if a < i < b]
            fs_ = [x for i, x in tr.calls('_stream_file') if a < i < b]
            raised = o.kind == 'raise' and b == len(tr.ev)
            if fs_:
                if list(fs_[0].args) != [it, cur]:
                    bad = bad or 'sends something else than the item'
                cur = fs_[0].res
            elif snd:
                k = [i for i, x in tr.calls('_send_event') if a < i < b][0]
                if tr.val(('lt', cur, ln), k) is not False:
                    bad = bad or 'may send more data than announced'
                d = [x for x in tr.ev[a:b] if x.kind == 'call' and x.res == snd[0].args[0]]
                if len(snd) != 1 or not d or not any(mention(v, it) for v in list(d[0].args) + [w for _, w in d[0].kw]):
                    bad = bad or 'does not send the item'
                cur = ('pure', 'Sub', (cur, ln))
            elif not raised:
                emp = [e.res for e in tr.ev[a:b] if e.kind == 'if' and e.recv in (('true', it), ('lt', const(0), ln))]
                stop = tr.val(('lt', const(0), cur)) is False
                if emp and emp[-1] is False:
                    cur = ('pure', 'Sub', (cur, ln))
                elif not stop:
                    bad = bad or 'skips an item of the body'
            fin = cur
        if o.kind == 'return':
            n += 1
            if bad is None and not full(tr, fin):
                bad = 'ends successfully although less data than announced was sent'
        if bad:
            sviol(ctx, 'length', fi, eng, o, bad, bad)
        else:
            ctx.ok('length', fi.qual)
    if not n:
        ctx.floor('length', NEVER)


def full(tr, t):
    for a, v in tr.facts():
        if a == ('lt', const(0), t) and v is False or a[0] == 'eq' and t in a[1:] and const(0) in a[1:] and v or a == ('true', t) and not v:
            return True
        if a[0] == 'lt' and a[1:] == (t, const(1)) and v:
            return True
    return False


def s09_eof(ctx):
    fi = ctx.repo.func(CONN + '._next_event')
    eng, outs = ctx.run(fi, OwnPolicy({'next_event': H11_FAULT}), TraceMonitor())
    n = 0
    for o in outs:
        tr = Trace(o)
        bad = None
        rd = [i for i, e in tr.calls('_raw_read')]
        for i in rd:
            r = tr.ev[i].res
            nx = [j for j, e in tr.calls('next_event') if j > i]
            rc = [e for j, e in tr.calls('receive_data') if j > i and (not nx or j < nx[0])]
            if (nx or o.kind == 'return') and (len(rc) != 1 or rc[0].args[0] != r and not (
                    is_const(rc[0].args[0]) and not cval(rc[0].args[0]) and any(e.kind == 'if' and e.recv == ('true', r) and not e.res
                                                                             for e in tr.ev[i:]))):
                bad = 'does not process everything that was received'
        if o.kind == 'return':
            n += 1
            ev = [e.res for i, e in tr.calls('next_event')]
            k = [i for i, e in tr.calls('next_event')]
            f = [e for e in tr.ev[k[-1]:] if e.kind == 'fault'] if k else []
            if not ev or o.val != ev[-1] or f:
                bad = 'hides a protocol error'
            elif event_type([(e.recv, e.res) for e in tr.ev[k[-1]:] if e.kind == 'if'], o.val).get('NEED_DATA') is not False:
                bad = 'returns although more data is needed'
        if bad:
            sviol(ctx, 'eof', fi, eng, o, bad, bad)
        else:
            ctx.ok('eof', fi.qual)
    if not n:
        ctx.floor('eof', NEVER)
    # consumers
    for name in ('readall', 'discard', 'readinto_fh'):
        fi = ctx.repo.func(CONN + '.' + name)
        eng, outs = ctx.run(fi, OwnPolicy({'read': (HTTP + '.ConnectionClosed',)}), TraceMonitor())
        for o in outs:
            if o.kind != 'return':
                continue
            tr = Trace(o)
            bad = None
            rd = [(i, e) for i, e in tr.calls('read') if e.recv == ('self', CONN)]
            closed = any(a == ('true', ('attr', ('self', CONN), '_response_open')) and not v for a, v in tr.facts())
            if [1 for e in tr.ev if e.kind == 'fault']:
                bad = 'hides an error'
            elif not rd:
                if not closed:
                    bad = 'does not read the response'
            else:
                ifs = [[e.res for e in tr.ev[i:b] if e.kind == 'if' and e.recv == ('true', x.res)] for (i, x), b in zip(
                    rd, [j for j, _ in rd[1:]] + [len(tr.ev)])]
                if not ifs[-1] or ifs[-1][0] is not False:
                    bad = 'stops before the end of the response'
                for (i, x), b in zip(rd[:-1], [j for j, _ in rd[1:]]):
                    if name == 'readinto_fh':
                        w = [(j, e) for j, e in tr.calls('write', upto=b) if j > i]
                        u = [(j, e) for j, e in enumerate(tr.ev) if i < j < b and e.kind == 'call' and e.recv == ('param', 'update', fi.qual)]
                        if len(w) != 1 or w[0][1].args[0] != x.res or w[0][1].recv != ('param', fi.node.args.args[1].arg, fi.qual):
                            bad = bad or 'does not store everything that was received'
                        elif tr.isnone(('param', 'update', fi.qual)) is False and (len(u) != 1 or u[0][1].args[0] != x.res):
                            bad = bad or 'does not report everything that was received'
                    elif name == 'readall':
                        w = [e for j, e in enumerate(tr.ev) if i < j < b and e.kind == 'call' and e.name in ('append', 'extend', 'write')
                             and x.res in e.args] + [1 for e in (o.val,) if mention(e, x.res)]
                        if not w:
                            bad = bad or 'loses data'
            if bad:
                sviol(ctx, 'eof', fi, eng, o, bad, bad)
            else:
                ctx.ok('eof', fi.qual)


@check('S09', explanation='''Every path through the HTTP client is enumerated, with failing reads, writes and user code: a connection is kept for
reuse only after its state was found idle and no request body was left incomplete; a response is taken for complete only at the end-of-message
event; a request is started only in a clean state, its body is followed by an end-of-message only if the announced number of bytes was sent; end of
file on the network without end of message never ends in success.''')
def s09(ctx):
    ctx.rule('reuse', 'connections are reused only when idle')
    ctx.rule('cycle', 'a response is complete only at its end-of-message')
    ctx.rule('request', 'requests are sent completely and in order')
    ctx.rule('length', 'exactly the announced amount of data is sent')
    ctx.rule('eof', 'a connection that ends early is an error')
    s09_pool(ctx)
    s09_cycle(ctx)
    s09_request(ctx)
    s09_body(ctx)
    s09_eof(ctx)
    for r in ctx.rules:
        ctx.floor(r)


# -------------------------------------------------------------------------------------------
# S13

SWIFT = B + 'swift.AsyncBackend'
GS = B + 'gs.AsyncBackend'


class EpochPolicy(OwnPolicy):
    '''Attributes that are read again after an await count as different values.'''
    epochs = True
    stable = frozenset()

    def __init__(self, force=(), faults=None):
        super().__init__(faults)
        self.force = set(force)

    def inline(self, fi, eng):
        return fi.qual not in known_functions() or fi.qual in self.force


def attr_of(t, base, name):
    return t is not None and t[0] == 'attr' and t[1] == base and t[2] == name


def epoch_of(t):
    return t[3] if len(t) > 3 else 0


def waits(tr, i, j, lock=None):
    '''An await between two events (leaving a lock does not wait).'''
    out = []
    for k in range(i + 1, j):
        e, p = tr.ev[k], tr.ev[k - 1]
        if e.kind == 'await' and lock and p.kind == 'exit' and is_attr(p.recv, lock):
            continue
        if e.kind in ('await', 'yield'):
            out.append(e)
    return out


def held(tr, i, lock):
    '''Index of the event that took the lock held at event i.'''
    at = None
    for k, e in enumerate(tr.ev[:i]):
        if e.kind == 'enter' and is_attr(e.recv, lock):
            at = k
        elif e.kind == 'exit' and is_attr(e.recv, lock):
            at = None
    return at


def ifs(tr, i, j, pred):
    return [(k, e) for k, e in enumerate(tr.ev) if i < k < j and e.kind == 'if' and pred(e.recv)]


def stores(ctx, attrs, cls, allowed):
    '''Assignments to attributes outside of the functions that may do it.'''
    repo = ctx.repo
    quals = {c.qual for c in repo.subclasses(repo.cls(cls))}
    out = []
    for f in src_functions(ctx, 's3ql.backends.'):
        if f.cls is None or f.cls.qual not in quals or f.qual in allowed or f.name == '__init__':
            continue
        if only_from(ctx, f, lambda c: c.qual in allowed or c.name == '__init__'):
            continue
        for n in walk_own(f.node):
            if isinstance(n, ast.Attribute) and n.attr in attrs and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.append((f, n))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and len(n.args) > 1 and \
                    isinstance(n.args[1], ast.Constant) and n.args[1].value in attrs:
                out.append((f, n))
    return out


def s13_pool(ctx):
    q = SWIFT + '._borrow_conn'
    exp = SWIFT + '._do_authentication_expired'
    fi = ctx.repo.func(q)
    slf = ('self', SWIFT)
    for f, n in stores(ctx, ('_pool', 'auth_token', 'auth_prefix'), SWIFT, {q, exp}):
        ctx.violate('pool', f.qual, '%s changes the shared connection pool or token outside of the renewal' % f.short, f.loc(n))

    def pool(t):
        return attr_of(t, slf, '_pool')

    eng, outs = ctx.run(fi, OwnPolicy(), TraceMonitor())
    built = 0
    for o in outs:
        tr = Trace(o)
        bad = None
        sets = [(i, e) for i, e in enumerate(tr.ev) if e.kind == 'setattr' and e.recv == slf and e.name == '_pool']
        for i, e in sets:
            built += 1
            v = setval(e)
            at = held(tr, i, '_auth_lock')
            if at is None:
                bad = 'replaces the connection pool without holding the lock'
                break
            if not [1 for _, x in ifs(tr, at, i, lambda a: a[0] in ('isnone', 'true') and pool(a[1])) if (x.res is True) == (x.recv[0] == 'isnone')]:
                bad = 'replaces the connection pool without looking again, after waiting for the lock, if it is still missing'
                break
            prev = {}
            for k, x in enumerate(tr.ev):
                if at < k and x.kind == 'setattr' and x.recv == slf and x.name in ('auth_token', 'auth_prefix', 'features'):
                    prev[x.name] = (k, x)
            late = [n for n, (k, _) in prev.items() if k > i]
            if late:
                bad = 'publishes the connection pool before %s is set' % late[0]
                break
            if 'auth_token' not in prev or 'auth_prefix' not in prev:
                bad = 'replaces the connection pool but not the token and prefix'
                break
            (a, ta), (b, tb) = prev['auth_token'], prev['auth_prefix']
            src = [x for x in (setval(ta), setval(tb))]
            base = [x[1] if x[0] == 'attr' else x for x in src]
            if waits(tr, min(a, b), max(a, b)):
                bad = 'waits while only one of token and prefix is replaced'
            elif base[0] != base[1] or not any(is_res(s, '_authenticate') for s in subterms(base[0])):
                bad = 'does not take token and prefix from the same authentication'
            elif v[0] == 'new' and v[1] == POOL:
                call = [x for x in tr.ev[:i] if x.kind == 'call' and x.res == v]
                if not call or not mention_any(list(call[-1].args) + [y for _, y in call[-1].kw], base[0]):
                    bad = 'connects to another server than the one that issued the token'
        for i, e in tr.calls('_authenticate'):
            at = held(tr, i, '_auth_lock')
            if at is None or not [1 for _, x in ifs(tr, at, i, lambda a: a[0] in ('isnone', 'true') and pool(a[1]))
                                  if (x.res is True) == (x.recv[0] == 'isnone')]:
                bad = bad or 'authenticates without holding the lock, or although another task just did'
        gets = [(i, e) for i, e in tr.calls('get') if pool(e.recv) or e.recv[0] == 'new' and e.recv[1] == POOL]
        for i, e in gets:
            ok = [k for k, x in ifs(tr, -1, i, lambda a: a[0] in ('isnone', 'true') and pool(a[1])) if (x.res is True) == (x.recv[0] == 'true')]
            ok += [k for k, _ in sets if k < i]
            if not ok or waits(tr, max(ok), i, '_auth_lock'):
                bad = bad or 'uses the connection pool although it may have been dropped in the meantime'
        if [1 for e in tr.ev if e.kind == 'yield'] and not gets:
            bad = bad or 'uses a connection that does not come from the pool'
        if bad:
            sviol(ctx, 'pool', fi, eng, o, bad, bad)
        else:
            ctx.ok('pool', fi.qual)
    if not built:
        ctx.floor('pool', NEVER)


def mention_any(ts, t):
    return any(mention(x, t) for x in ts)


def s13_expired(ctx):
    fi = ctx.repo.func(SWIFT + '._do_authentication_expired')
    slf = ('self', SWIFT)
    tok = ('param', fi.node.args.args[2].arg, fi.qual)
    cur = ('attr', slf, 'auth_token')
    eng, outs = ctx.run(fi, OwnPolicy(), TraceMonitor())
    n = 0
    for o in outs:
        tr = Trace(o)
        bad = None
        drops = [(i, e) for i, e in enumerate(tr.ev) if e.kind == 'setattr' and e.recv == slf and e.name == '_pool']
        for i, e in drops:
            n += 1
            at = held(tr, i, '_auth_lock')
            same = [1 for _, x in ifs(tr, at if at is not None else -1, i, lambda a: a[0] in ('eq', 'is') and set(a[1:]) == {cur, tok})
                    if x.res is True]
            if at is None:
                bad = 'drops the connection pool without holding the lock'
            elif not same:
                bad = 'drops the connection pool of a token that was not rejected'
            elif setval(e) != NONE:
                bad = 'does not request a new token'
        if not drops and not [1 for _, x in ifs(tr, -1, len(tr.ev), lambda a: a[0] in ('eq', 'is') and set(a[1:]) == {cur, tok}) if x.res is False]:
            bad = bad or 'keeps a connection pool whose token was rejected'
        if o.kind != 'raise' or last(exc_name(o)) != 'AuthenticationExpired':
            bad = bad or 'does not make the caller repeat the request'
        if bad:
            sviol(ctx, 'expired', fi, eng, o, bad, bad)
        else:
            ctx.ok('expired', fi.qual)
    if not n:
        ctx.floor('expired', NEVER)


def token_header(tr, upto, names):
    '''Value of the last assignment of the header that carries the token.'''
    out = None
    for k, e in enumerate(tr.ev[:upto]):
        if e.kind == 'setitem' and e.args and e.args[0][0] == 'const' and str(e.args[0][1]).lower() in names:
            out = (k, e.args[1])
    return out


def s13_requests(ctx):
    req = SWIFT + '._do_request'
    expq = SWIFT + '._do_authentication_expired'
    exp = ctx.repo.func(expq)
    slf = ('self', SWIFT)
    users = [f for f in src_functions(ctx, 's3ql.backends.') if f.qual != expq and any(
        isinstance(n, ast.Attribute) and n.attr == exp.name for n in walk_own(f.node))]
    done = set()
    for f in users:
        entries = [f] if f.qual in known_functions() else callers(ctx, f) or [f]
        for g in entries:
            if g.qual in done:
                continue
            done.add(g.qual)
            eng, outs = ctx.run(g, EpochPolicy({req}), TraceMonitor())
            for o in outs:
                tr = Trace(o)
                for i, e in tr.calls(exp.name):
                    a = e.arg(1, exp.node.args.args[2].arg) if hasattr(e, 'arg') else kwarg(e, 1, exp.node.args.args[2].arg)
                    snd = [k for k, _ in tr.calls('send_request', upto=i)]
                    h = token_header(tr, snd[-1] if snd else i, ('x-auth-token',))
                    if not snd or h is None or a != h[1]:
                        sviol(ctx, 'attribute', g, eng, o, 'attributes a rejection to another token than the one that was sent',
                              'the token is read again after the request was sent')
                    else:
                        ctx.ok('attribute', g.qual)
    fi = ctx.repo.func(req)
    eng, outs = ctx.run(fi, EpochPolicy(), TraceMonitor())
    for o in outs:
        tr = Trace(o)
        bad = None
        for i, e in tr.calls('send_request'):
            h = token_header(tr, i, ('x-auth-token',))
            pfx = [t for a in e.args for t in subterms(a) if attr_of(t, slf, 'auth_prefix')]
            if h is None or not attr_of(h[1], slf, 'auth_token'):
                bad = 'sends a request without the current token'
            elif not pfx or any(epoch_of(t) != epoch_of(h[1]) for t in pfx):
                bad = 'combines token and prefix of different authentications'
            st = ('attr', e.res, 'status')
            v = [x.res for _, x in ifs(tr, i, len(tr.ev), lambda a: a[0] in ('eq', 'is') and const(401) in a[1:] and any(
                t[0] == 'attr' and t[1] == e.res and t[2] == 'status' for t in a[1:]))]
            called_ = tr.calls(exp.name)
            success = o.kind == 'return'
            if True in v and not called_:
                bad = bad or 'does not renew a token that was rejected'
            elif not v and not success and not called_ and last(exc_name(o)) != 'BadDigestError':
                bad = bad or 'does not look if the token was rejected'
        if bad:
            sviol(ctx, 'attribute', fi, eng, o, bad, bad)
        else:
            ctx.ok('attribute', fi.qual)


def s13_gs(ctx):
    slf = ('self', GS)
    ens = ctx.repo.func(GS + '._ensure_token')
    get = ctx.repo.func(GS + '._get_access_token')
    # who touches the tokens
    for f in src_functions(ctx, 's3ql.backends.gs'):
        helper = f.qual not in known_functions()
        for n in walk_own(f.node):
            if isinstance(n, ast.Attribute) and n.attr == get.name and f.qual not in (ens.qual, get.qual) and not helper:
                ctx.violate('gs', f.qual, '%s requests a token without holding the lock' % f.short, f.loc(n))
            if isinstance(n, ast.Attribute) and n.attr == '_tokens' and isinstance(n.ctx, (ast.Store, ast.Del)):
                ctx.violate('gs', f.qual, '%s replaces all tokens' % f.short, f.loc(n))
            tgt = None
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Attribute):
                tgt = n.value.attr
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('pop', 'popitem', 'clear', 'setdefault', 'update') \
                    and isinstance(n.func.value, ast.Attribute):
                tgt = n.func.value.attr
            if tgt == '_tokens' and f.qual not in (get.qual, GS + '.is_temp_failure') and not helper:
                ctx.violate('gs', f.qual, '%s changes the stored tokens outside of the renewal' % f.short, f.loc(n))

    def lookup(t):
        if is_res(t, 'get') and res_args(t) and any(attr_of(x, slf, '_tokens') or is_attr(x, '_tokens') for x in res_args(t)):
            return True
        return t[0] == 'item' and is_attr(t[1], '_tokens')

    def fresh(tr, i, j, t):
        '''The token was found usable between two events.'''
        dl = [x for x in ifs(tr, i, j, lambda a: a[0] == 'lt' and any(u[0] == 'attr' and u[1] == t and u[2] == 'deadline' for u in a[1:]))]
        for _, x in dl:
            a, b = x.recv[1:]
            now_first = is_res(a, 'current_time')
            if now_first and x.res is True:
                return True
        return False

    def stale(tr, i, j, t):
        for _, x in ifs(tr, i, j, lambda a: a[0] == 'isnone' and a[1] == t or a == ('true', t)):
            if (x.res is True) == (x.recv[0] == 'isnone'):
                return True
        for _, x in ifs(tr, i, j, lambda a: a[0] == 'lt' and any(u[0] == 'attr' and u[1] == t and u[2] == 'deadline' for u in a[1:])):
            a, b = x.recv[1:]
            if is_res(a, 'current_time') and x.res is False or is_res(b, 'current_time') and x.res is True:
                return True
        return False

    eng, outs = ctx.run(ens, EpochPolicy(), TraceMonitor())
    for o in outs:
        tr = Trace(o)
        bad = None
        gets = tr.calls(get.name)
        for i, e in gets:
            at = held(tr, i, '_refresh_lock')
            if at is None:
                bad = 'requests a token without holding the lock'
            else:
                again = [x.res for k, x in enumerate(tr.ev) if at < k < i and x.kind == 'call' and x.res and lookup(x.res)]
                again += [t for _, x in ifs(tr, at, i, lambda a: True) for a in x.recv[1:] if isinstance(a, tuple) for t in subterms(a)
                          if t[0] == 'item' and lookup(t)]
                if not any(stale(tr, at, i, t) for t in again):
                    bad = 'requests a new token without looking again, after waiting for the lock, if another task just did'
        if o.kind == 'return' and not bad:
            v = o.val
            if v[0] != 'attr' or v[2] != 'bearer' or not lookup(v[1]):
                bad = 'does not return a stored token'
            else:
                t = v[1]
                aw = [k for k, x in enumerate(tr.ev) if x.kind == 'await' and x.name == get.name or x.kind == 'ret' and x.name == get.name]
                after = aw and t[0] == 'item' and epoch_of(t) != 0 or aw and [k for k, x in enumerate(tr.ev) if x.res == t and k > aw[-1]]
                # not found missing, and not found expired
                none = [x.res for _, x in ifs(tr, -1, len(tr.ev), lambda a: a == ('isnone', t))]
                if not after and not (False in none and fresh(tr, -1, len(tr.ev), t)):
                    bad = 'returns a token that may have expired'
        if bad:
            sviol(ctx, 'gs', ens, eng, o, bad, bad)
        else:
            ctx.ok('gs', ens.qual)
    # a token is stored with the time it expires
    eng, outs = ctx.run(get, OwnPolicy(), TraceMonitor())
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        bad = 'does not store the new token'
        for i, e in enumerate(tr.ev):
            if e.kind == 'setitem' and is_attr(e.recv, '_tokens'):
                v = e.args[1]
                new = [x for x in tr.ev[:i] if x.kind == 'call' and x.res == v]
                if not new:
                    bad = 'stores something else than the new token'
                    continue
                dl = kwarg(new[-1], 1, 'deadline')
                if dl is None or not any(is_res(p, 'current_time') for p in subterms(dl)):
                    bad = 'stores a token without the time at which it expires'
                else:
                    bad = None
        if bad:
            sviol(ctx, 'gs', get, eng, o, bad, bad)
        else:
            ctx.ok('gs', get.qual)
    # a request that is rejected
    fi = ctx.repo.func(GS + '._do_request')
    eng, outs = ctx.run(fi, EpochPolicy(), TraceMonitor())
    for o in outs:
        tr = Trace(o)
        bad = None
        for i, e in tr.calls('send_request'):
            h = token_header(tr, i, ('authorization',))
            toks = [t for t in subterms(h[1]) if is_res(t, '_ensure_token')] if h else []
            if not toks:
                bad = 'sends a request without a current token'
            v = [x.res for _, x in ifs(tr, i, len(tr.ev), lambda a: a[0] in ('eq', 'is') and const(401) in a[1:])]
            if True in v:
                arg = new_calls(tr, B + 'gs.AccessTokenExpired')
                if o.kind != 'raise' or last(exc_name(o)) != 'AccessTokenExpired':
                    bad = bad or 'does not renew a token that was rejected'
                elif not arg or not toks or toks[0] not in arg[-1][1].args:
                    bad = bad or 'attributes the rejection to another token than the one that was sent'
            elif not v and o.kind == 'raise':
                bad = bad or 'does not look if the token was rejected'
        if bad:
            sviol(ctx, 'gs', fi, eng, o, bad, bad)
        else:
            ctx.ok('gs', fi.qual)
    fi = ctx.repo.func(GS + '.is_temp_failure')
    exc = ('param', fi.node.args.args[1].arg, fi.qual)
    eng, outs = ctx.run(fi, OwnPolicy(), TraceMonitor())
    n = 0
    for o in outs:
        tr = Trace(o)
        bad = None
        mine = [1 for a, v in tr.facts() if a[0] == 'isinst' and a[1] == exc and 'AccessTokenExpired' in repr(a[2]) and v]
        dels = [(i, e) for i, e in enumerate(tr.ev) if (e.kind == 'delitem' or e.kind == 'call' and e.name in ('pop', 'clear', 'popitem'))
                and is_attr(e.recv, '_tokens')]

        def same(a):
            return a[0] in ('eq', 'is') and any(u[0] == 'attr' and u[2] == 'bearer' and u[1] == exc for u in a[1:]) and any(
                u[0] == 'attr' and u[2] == 'bearer' and lookup(u[1]) for u in a[1:])
        for i, e in dels:
            if not [1 for _, x in ifs(tr, -1, i, same) if x.res is True]:
                bad = 'discards a token that was not rejected'
        if mine:
            n += 1
            if o.kind != 'return' or o.val != TRUE:
                bad = bad or 'does not repeat a request whose token was rejected'
            elif not dels and not [1 for _, x in ifs(tr, -1, len(tr.ev), same) if x.res is False] and not [
                    1 for a, v in tr.facts() if a[0] == 'isnone' and lookup(a[1]) and v]:
                bad = bad or 'keeps a token that was rejected'
        if bad:
            sviol(ctx, 'gs', fi, eng, o, bad, bad)
        else:
            ctx.ok('gs', fi.qual)
    if not n:
        ctx.floor('gs', NEVER)


@check('S13', explanation='''All paths of the functions that renew credentials: shared tokens and pools are replaced only under the lock and after
looking again, published last, and dropped only if the rejected token (the one read before the request was sent; attributes read again after an
await count as different values) is still the current one.''')
def s13(ctx):
    ctx.rule('pool', 'the connection pool is replaced under the lock, and published last')
    ctx.rule('expired', 'only the pool of the rejected token is dropped')
    ctx.rule('attribute', 'a rejection is attributed to the token that was sent')
    ctx.rule('gs', 'access tokens are renewed once and discarded only when rejected')
    s13_pool(ctx)
    s13_expired(ctx)
    s13_requests(ctx)
    s13_gs(ctx)
    for r in ctx.rules:
        ctx.floor(r)


# -------------------------------------------------------------------------------------------
# S11

LOCAL = B + 'local.AsyncBackend'
FS_EFFECT = ('rename', 'replace', 'renames', 'unlink', 'remove', 'rmdir', 'removedirs', 'link', 'symlink', 'truncate', 'mkfifo', 'mknod', 'move',
             'rmtree', 'copy', 'copy2', 'copyfile', 'copytree', 'write_bytes', 'write_text')
UNIQUE = ('next', 'uuid4', 'uuid1', 'token_hex', 'token_urlsafe', 'mktemp')
PROCESS = ('getpid', 'uuid4', 'uuid1', 'token_hex', 'token_urlsafe', 'mktemp')


def text_parts(t):
    '''A text as the sequence of its constant and variable parts.'''
    if t[0] == 'const' and isinstance(t[1], str):
        return [t[1]]
    if t[0] == 'fmt' and isinstance(t[1], str):
        out = []
        bits = t[1].split('{}')
        if len(bits) != len(t[2]) + 1:
            return [t]
        for i, b in enumerate(bits):
            if b:
                out.append(b)
            if i < len(t[2]):
                out += text_parts(t[2][i])
        return out
    parts = flat_add(t)
    if len(parts) > 1:
        return [y for x in parts for y in text_parts(x)]
    return [t]


def open_mode(e):
    m = kwarg(e, 1, 'mode')
    return cval(m) if m is not None and is_const(m) else 'r' if m is None else None


def writes_file(e):
    m = open_mode(e)
    return m is None or any(c in m for c in 'wax+')


class WritePolicy(OwnPolicy):
    max_states = 60000

    def __init__(self):
        oserr = ('builtins.OSError',)
        super().__init__({'open': ('builtins.FileNotFoundError', 'builtins.OSError'), 'write': oserr, 'rename': oserr, 'replace': oserr,
                          'run_sync': ('builtins.OSError', 'trio.Cancelled'), 'copyfh': ('builtins.OSError', 'trio.Cancelled'), 'makedirs': ('builtins.FileExistsError',),
                          'sleep': ('trio.Cancelled',), 'flush': oserr, 'fsync': oserr, 'close': oserr, 'tell': oserr})

    def raises(self, ev, eng):
        if ev.kind == 'await' or ev.name == 'open' and ev.qual != 'builtins.open' or ev.name == 'replace' and ev.qual != 'os.replace':
            return ()
        return super().raises(ev, eng)


def handles(tr, res):
    '''Terms for a file handle, also as returned by a context manager.'''
    h = {res}
    for e in tr.ev:
        if e.kind == 'call' and e.name == 'enter_context' and e.args and e.args[0] in h and e.res:
            h.add(e.res)
    return h


def is_handle(t, hs):
    return t in hs or t is not None and t[0] == 'res' and str(t[1]).startswith('enter:') and any(a in hs for a in res_args(t))


def s11_publish(ctx):
    fi = ctx.repo.func(LOCAL + '.write_fh')
    names = [a.arg for a in fi.node.args.args]
    key, src = ('param', names[1], fi.qual), ('param', names[2], fi.qual)
    eng, outs = ctx.run(fi, WritePolicy(), TraceMonitor())
    n = 0
    for o in outs:
        tr = Trace(o)
        bad = None

        def is_path(t):
            return is_res(t, '_key_to_path') and key in res_args(t)
        fault = {i for i, e in enumerate(tr.ev) if e.kind == 'call' and i + 1 < len(tr.ev) and any(
            x.kind == 'fault' and x.node == e.node for x in tr.ev[i + 1:i + 3])}
        opens = [(i, e) for i, e in tr.calls('open') if e.qual == 'builtins.open' and writes_file(e)]
        good = [(i, e) for i, e in opens if i not in fault]
        ren = [(i, e) for i, e in tr.calls('rename', 'replace') if e.qual in ('os.rename', 'os.replace')]

        def no_temp(f):
            p = text_parts(f)
            if is_path(f):
                return 'writes the object under its final name'
            if not is_path(p[0]) or any(isinstance(x, str) and '/' in x for x in p):
                return 'does not create the temporary file in the directory of the object'
            if not any(isinstance(x, str) and '#' in x for x in p):
                return 'gives the temporary file a name that a key could have'
            loose = [s for x in p[1:] if not isinstance(x, str) for s in subterms(x)]
            if not any(is_res(s, *UNIQUE) for s in loose) or not any(is_res(s, *PROCESS) for s in loose):
                return 'gives the temporary file a name that concurrent writers may use too'
            return None

        for i, e in opens:
            bad = bad or no_temp(kwarg(e, 0, 'file'))
            buf = kwarg(e, 2, 'buffering')
            if buf is not None and is_const(buf) and cval(buf) == 0:
                bad = bad or 'may write the object incompletely'
        for i, e in ren:
            n += 1
            to = kwarg(e, 1, 'dst')
            h = [(k, x) for k, x in good if k < i and kwarg(x, 0, 'file') == kwarg(e, 0, 'src')]
            if to is None or not is_path(to):
                bad = bad or 'publishes the object under another name than that of its key'
            elif not h:
                bad = bad or 'publishes a file that it did not write'
            else:
                k, x = h[-1]
                hs = handles(tr, x.res)
                closed = [j for j, y in enumerate(tr.ev[:i]) if j > k and (
                    y.kind == 'exit' and (is_handle(y.recv, hs) or [1 for _, z in tr.calls('enter_context', upto=i) if z.recv == y.recv and x.res in z.args])
                    or y.kind == 'call' and y.name == 'close' and is_handle(y.recv, hs))]
                cp = [j for j, y in enumerate(tr.ev[:i]) if j > k and j not in fault and y.kind == 'call' and y.name in (
                    'copyfh', 'run_sync', 'copyfileobj', 'start_thread_soon') and src in y.args and any(is_handle(a, hs) for a in y.args)]
                wr = [j for j, y in enumerate(tr.ev[:i]) if j > k and y.kind == 'call' and y.name == 'write' and is_handle(y.recv, hs)]
                if not cp:
                    bad = bad or 'publishes the object before its data is written'
                elif not closed or max(cp + wr) > closed[0]:
                    bad = bad or 'publishes the object before its data is written out'
                elif [j for j in wr if j in fault]:
                    bad = bad or 'publishes the object although its data could not be written'
        done = [i for i, _ in ren if i not in fault]
        if o.kind == 'return' and not done:
            bad = bad or 'reports success without publishing the object'
        if o.kind == 'raise' and good and not done:
            i, e = good[-1]
            rm = [1 for j, y in tr.calls('unlink', 'remove') if j > i and y.args and y.args[0] == kwarg(e, 0, 'file')]
            if not rm:
                bad = bad or 'leaves the temporary file behind when writing fails'
        for i, e in tr.calls(*FS_EFFECT):
            if not (e.qual or '').startswith(('os.', 'shutil.')):
                continue
            if e.name in ('unlink', 'remove'):
                if no_temp(e.args[0]) or [1 for x, _ in ren if x < i and x not in fault]:
                    bad = bad or 'deletes a file that it did not create'
            elif e.name not in ('rename', 'replace') or e.qual not in ('os.rename', 'os.replace'):
                bad = bad or 'modifies files in another way'
        if bad:
            sviol(ctx, 'publish', fi, eng, o, bad, bad)
        else:
            ctx.ok('publish', fi.qual)
    if not n:
        ctx.floor('publish', NEVER)


def fs_calls(ctx, f):
    '''Calls in a function that change the file system.'''
    for n in walk_own(f.node):
        if not isinstance(n, ast.Call):
            continue
        q = called(ctx, f, n) or ''
        nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
        if q.startswith(('os.', 'shutil.', 'pathlib.')) and q.rpartition('.')[2] in FS_EFFECT or nm in ('write_bytes', 'write_text', 'rmtree'):
            yield n, nm
        elif q in ('builtins.open', 'open', 'io.open') or nm == 'open' and q in ('', 'open'):
            m = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == 'mode'), None)
            if m is not None and not (isinstance(m, ast.Constant) and isinstance(m.value, str) and not set('wax+') & set(m.value)):
                yield n, 'open'


def s11_sites(ctx):
    mod = LOCAL.rpartition('.')[0]
    for f in src_functions(ctx, mod):
        for n, nm in fs_calls(ctx, f):
            owner = {f.qual}
            if f.qual not in known_functions():
                owner = {c.qual for c in callers(ctx, f)}
            ok = owner <= {LOCAL + '.write_fh'} or nm in ('unlink', 'remove') and owner <= {LOCAL + '.delete', LOCAL + '.write_fh'}
            if ok:
                ctx.ok('paths', f.qual)
            else:
                ctx.violate('paths', f.qual, '%s changes stored files on its own' % f.short, f.loc(n))
    # every file that is used is that of the requested key
    for name in ('lookup', 'get_size', 'readinto_fh', 'contains', 'delete'):
        fi = ctx.repo.func(LOCAL + '.' + name)
        key = ('param', fi.node.args.args[1].arg, fi.qual)
        eng, outs = ctx.run(fi, OwnPolicy(), TraceMonitor())
        used = 0
        for o in outs:
            tr = Trace(o)
            bad = None
            for i, e in enumerate(tr.ev):
                if e.kind != 'call' or not e.args:
                    continue
                q = e.qual or ''
                if q in ('builtins.open', 'os.lstat', 'os.stat', 'os.unlink', 'os.remove', 'os.path.getsize', 'os.path.exists', 'os.path.lexists'):
                    used += 1
                    t = e.args[0]
                    if not (is_res(t, '_key_to_path') and key in res_args(t)):
                        bad = 'uses another file than that of the key'
                    elif q == 'builtins.open' and writes_file(e):
                        bad = 'opens the stored object for writing'
            if bad:
                sviol(ctx, 'paths', fi, eng, o, bad, bad)
            else:
                ctx.ok('paths', fi.qual)
        if not used:
            ctx.violate('paths', fi.qual, '%s does not look at the file of the key' % fi.short, fi.loc(fi.node))


def replace_chain(t):
    '''(start, [(from, to)]) of a chain of text replacements.'''
    out = []
    while is_res(t, 'replace') and len(res_args(t)) == 3:
        r, a, b = res_args(t)
        if not (is_const(a) and is_const(b)):
            return None
        out.append((cval(a), cval(b)))
        t = r
    return t, list(reversed(out))


def s11_escape(ctx):
    mod = LOCAL.rpartition('.')[0]
    tabs = {}
    for name in ('escape', 'unescape'):
        fi = ctx.repo.func(mod + '.' + name)
        eng, outs = ctx.run(fi, OwnPolicy(), TraceMonitor())
        for o in outs:
            if o.kind != 'return':
                continue
            r = replace_chain(o.val)
            if r is None or r[0][0] != 'param':
                sviol(ctx, 'escape', fi, eng, o, 'does not consist of replacements of characters', 'cannot be inverted')
                continue
            tabs.setdefault(name, []).append((fi, r[1]))
    fi, esc = tabs['escape'][0]
    un = tabs['unescape'][0][1]
    bad = None
    if len(tabs['escape']) != 1 or len(tabs['unescape']) != 1:
        bad = 'depends on the text'
    src = [a for a, _ in esc]
    codes = [b for _, b in esc]
    if bad:
        pass
    elif '/' not in src:
        bad = 'does not protect against keys with a slash, which could leave the storage directory'
    elif '#' not in src:
        bad = 'lets keys look like temporary files'
    elif any(len(a) != 1 for a in src) or len(set(src)) != len(src):
        bad = 'replaces the same text twice'
    else:
        marks = {b[:1] for b in codes}
        mark = codes[0][:1]
        if len(marks) != 1 or not mark or src[0] != mark:
            bad = 'does not replace the escape character before it is used, so that different keys have the same name'
        elif len({len(b) for b in codes}) != 1 or len(set(codes)) != len(codes):
            bad = 'uses ambiguous codes, so that different keys have the same name'
        elif any(set(b[1:]) & set(src) for b in codes) or any('/' in b or '#' in b for b in codes):
            bad = 'uses codes that are replaced again'
        elif sorted((b, a) for a, b in esc) != sorted(un):
            bad = 'is not undone by unescape'
        elif un[-1] != (codes[0], mark):
            bad = 'is not undone by unescape, which restores the escape character too early'
    if bad:
        ctx.violate('escape', fi.qual, '%s %s' % (fi.short, bad), fi.loc(fi.node))
    else:
        ctx.ok('escape', fi.qual)


def list_contents(tr, t):
    '''Elements of a list or tuple built on this path, or None.'''
    if t[0] == 'tuple':
        return list(t[1:])
    if t[0] != 'obj' or t[1] != 'list':
        return None
    init = tr.o.st.heap.get((t, '$orig'))
    out = list(init[2] if init[0] == 'pure' else init[1:]) if init else []
    for e in tr.ev:
        if e.recv == t and e.kind == 'call':
            if e.name == 'append':
                out.append(e.args[0])
            elif e.name == 'extend' and e.args[0][0] in ('obj', 'tuple'):
                more = list_contents(tr, e.args[0])
                if more is None:
                    return None
                out += more
            elif e.name not in ('copy', 'index', 'count'):
                return None
    return out


def s11_key_path(ctx):
    fi = ctx.repo.func(LOCAL + '._key_to_path')
    slf = ('self', LOCAL)
    key = ('param', fi.node.args.args[1].arg, fi.qual)
    esc = LOCAL.rpartition('.')[0] + '.escape'
    eng, outs = ctx.run(fi, OwnPolicy(), TraceMonitor())

    def safe(t):
        '''Text (or list of texts) without a slash.'''
        if t[0] == 'const':
            return isinstance(t[1], str) and '/' not in t[1] and t[1] not in ('', '.', '..')
        if is_res(t, 'escape'):
            return t[1] == esc and res_args(t) == (key,) or t[1] == esc and tuple(res_args(t)) == (key,)
        if t[0] == 'pure' and t[1].startswith('comp_'):
            return safe(t[2][0])
        if t[0] == 'obj':
            return all(safe(x) for x in list_contents(tr, t) or [('unk', 'list')])
        if t[0] == 'pure' and t[1] in ('slice', 'item') or t[0] == 'item':
            return safe(t[2][0] if t[0] == 'pure' else t[1])
        if t[0] == 'pure' and t[1] == 'add' or t[0] == 'fmt':
            p = text_parts(t)
            return p != [t] and all('/' not in x if isinstance(x, str) else safe(x) for x in p)
        return False

    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        bad = None
        v = o.val
        parts = None
        if is_res(v, 'join') and v[1] == 'os.path.join':
            parts = []
            for a in res_args(v):
                if a[0] == 'star':
                    more = list_contents(tr, a[1])
                    parts = None if more is None or parts is None else parts + more
                elif parts is not None:
                    parts.append(a)
        elif is_res(v, 'join') and len(res_args(v)) == 2 and res_args(v)[0] == const('/'):
            parts = list_contents(tr, res_args(v)[1])
        else:
            p = text_parts(v)
            if len(p) > 2 and all(x == '/' for x in p[1::2]):
                parts = [const(x) if isinstance(x, str) else x for x in p[::2]]
        if parts is None:
            bad = 'does not build the path from the storage directory and the escaped key'
        elif not parts or parts[0] != ('attr', slf, 'prefix'):
            bad = 'builds a path that does not start with the storage directory'
        elif not all(safe(x) for x in parts[1:]):
            bad = 'lets a part of the key choose the directory'
        elif not (is_res(parts[-1], 'escape') and tuple(res_args(parts[-1])) == (key,)):
            bad = 'does not use the complete key as file name, so that different keys may share a file'
        if bad:
            sviol(ctx, 'escape', fi, eng, o, bad, bad)
        else:
            ctx.ok('escape', fi.qual)


@check('S11', explanation='''Every path of the local writer, with failing and cancelled file operations: data is only written to a temporary file
that no key and no other writer can name, it is renamed after it was written and closed, and removed on every failure. Names: the escape function
is a chain of replacements checked to be invertible, and paths consist of the storage directory and slices of the escaped key.''')
def s11(ctx):
    ctx.rule('publish', 'objects are published by renaming a complete temporary file')
    ctx.rule('paths', 'only the file of the requested key is used')
    ctx.rule('escape', 'keys map one-to-one to paths inside the directory')
    s11_publish(ctx)
    s11_sites(ctx)
    s11_escape(ctx)
    s11_key_path(ctx)
    for r in ctx.rules:
        ctx.floor(r)


# -------------------------------------------------------------------------------------------
# B10

WRITERS = ('copyfh', 'copyfileobj', 'readinto_fh', 'readinto', 'decompress_fh', 'decrypt_fh', 'compress_fh', 'dump', 'writelines')


def writes_param(ctx, fi, name, depth=0):
    '''Does a function write to one of its parameters?'''
    for n in walk_own(fi.node):
        if not isinstance(n, ast.Call):
            continue
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == name and f.attr in ('write', 'writelines'):
            return True
        for i, a in enumerate(n.args):
            if isinstance(a, ast.Name) and a.id == name:
                q = called(ctx, fi, n)
                g = ctx.repo.func(q, optional=True) if q and q.startswith('s3ql.') else None
                nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
                if g is not None and depth < 3:
                    ps = [x.arg for x in g.node.args.args]
                    if i < len(ps) and writes_param(ctx, g, ps[i], depth + 1):
                        return True
                elif nm in WRITERS:
                    return True
        if isinstance(f, ast.Attribute) and f.attr == 'run_sync' and any(isinstance(a, ast.Name) and a.id in WRITERS for a in n.args[:1]) and any(
                isinstance(a, ast.Name) and a.id == name for a in n.args[1:]):
            return True
    return False


def passed_on(ctx, fi, e):
    '''Positions of a call's arguments that the callee writes to (None: not known).'''
    q = e.qual or ''
    g = ctx.repo.func(q, optional=True) if q.startswith('s3ql.') else None
    if g is None:
        return range(len(e.args)) if e.name in WRITERS or e.name == 'run_sync' and any(last_name(a) in WRITERS for a in e.args[:1]) else ()
    ps = [x.arg for x in g.node.args.args]
    if g.cls is not None and ps and ps[0] in ('self', 'cls'):
        ps = ps[1:]
    return [i for i, _ in enumerate(e.args) if i < len(ps) and writes_param(ctx, g, ps[i])]


def last_name(t):
    return str(t[1]).rpartition('.')[2] if t[0] in ('global', 'func', 'cls') else show(t).rpartition('.')[2]


class RawPolicy(OwnPolicy):
    while_iters = 2
    loop_iters = 2

    def inline(self, fi, eng):
        return fi.qual not in known_functions()

    def raises(self, ev, eng):
        if ev.kind == 'getitem':
            return ('builtins.KeyError',)
        if ev.kind == 'call' and ev.qual == 'builtins.open':
            return ('builtins.FileNotFoundError',)
        return ()


def open_sites(ctx):
    '''(function, call) that open a file for writing.'''
    for f in src_functions(ctx):
        for n in walk_own(f.node):
            if not isinstance(n, ast.Call):
                continue
            q = called(ctx, f, n) or ''
            if q in ('builtins.open', 'open', 'io.open', 'io.FileIO') or q == 'os.write' or q == '' and isinstance(n.func, ast.Name) and n.func.id == 'open':
                m = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == 'mode'), None)
                if q == 'os.write':
                    yield f, n, 'raw'
                    continue
                if m is None or isinstance(m, ast.Constant) and isinstance(m.value, str) and not set('wax+') & set(m.value):
                    continue
                b = n.args[2] if len(n.args) > 2 else next((k.value for k in n.keywords if k.arg == 'buffering'), None)
                if q == 'io.FileIO':
                    yield f, n, 'raw'
                elif b is None or isinstance(b, ast.Constant) and isinstance(b.value, int) and b.value != 0:
                    yield f, n, 'buffered'
                else:
                    yield f, n, 'raw'


def complete_writes(tr, is_raw):
    '''The first write to a raw handle whose result is not acted upon.'''
    ws = [(i, e) for i, e in enumerate(tr.ev) if e.kind == 'call' and (e.name == 'write' and is_raw(e.recv) or e.qual == 'os.write')
          and not (i + 1 < len(tr.ev) and tr.ev[i + 1].kind == 'fault' and tr.ev[i + 1].node == e.node)]

    def rest(t, d, n):
        return t[0] == 'pure' and t[1] == 'slice' and t[2][0] == d and t[2][1] == n and (len(t[2]) < 3 or t[2][2] == NONE)

    def length(t, d):
        return t == ('pure', 'len', (d,)) or is_res(t, 'len') and d in res_args(t) or t[0] == 'attr' and t[1] == d and t[2] == 'nbytes'
    for k, (i, e) in enumerate(ws):
        data = e.args[-1] if e.args else None
        n = e.res
        ok = False
        if k + 1 < len(ws):
            nd = ws[k + 1][1].args[-1] if ws[k + 1][1].args else None
            ok = nd is not None and (rest(nd, data, n) or nd[0] == 'pure' and nd[1] == 'slice' and any(mention(x, n) for x in nd[2][1:2]))
        if not ok:
            for x in tr.ev[i:]:
                if x.kind != 'if':
                    continue
                a = x.recv
                if a[0] == 'true' and rest(a[1], data, n) and x.res is False:
                    ok = True
                elif a[0] in ('eq', 'is') and x.res is True and any(mention(u, n) for u in a[1:]) and any(
                        u == const(0) or length(u, data) or u[0] == 'pure' and u[1] == 'len' for u in a[1:]):
                    ok = True
                elif a[0] == 'lt' and x.res is False and mention(a[1], n) and any(s[0] == 'pure' and s[1] == 'len' or is_res(s, 'len') for s in subterms(a[2])):
                    ok = True
        if not ok:
            return e
    return None


def b10_raw(ctx):
    repo = ctx.repo
    entries, attrs, done = [], set(), set()
    for f, n, kind in open_sites(ctx):
        if kind == 'buffered':
            ctx.ok('sites', '%s:%s' % (f.qual, n.lineno))
            continue
        ctx.ok('sites', '%s:%s' % (f.qual, n.lineno))
        if f.qual not in [x[0].qual for x in entries]:
            entries.append((f, None))
    i = 0
    while i < len(entries):
        fi, attr = entries[i]
        i += 1
        eng, outs = ctx.run(fi, RawPolicy(), TraceMonitor())
        for o in outs:
            tr = Trace(o)
            raw = set()
            for e in tr.ev:
                if e.kind == 'call' and e.qual in ('builtins.open', 'io.open', 'io.FileIO') and writes_file(e):
                    b = kwarg(e, 2, 'buffering')
                    if e.qual == 'io.FileIO' or b is not None and not (is_const(b) and cval(b) != 0):
                        raw |= handles(tr, e.res)

            def is_raw(t):
                return is_handle(t, raw) or attr is not None and t is not None and t[0] == 'attr' and t[2] == attr and t[1][0] == 'self'
            bad = None
            for e in tr.ev:
                if e.kind == 'setattr' and setval(e) is not None and is_raw(setval(e)) and fi.cls is not None and e.recv[0] == 'self':
                    attrs.add((fi.cls.qual, e.name))
                elif e.kind == 'call' and e.qual and not e.qual.startswith('os.'):
                    for k in passed_on(ctx, fi, e):
                        if is_raw(e.args[k]):
                            bad = 'hands a file to %s that may accept only a part of the data' % e.name
                elif e.kind == 'call' and e.name in WRITERS + ('run_sync',) and any(is_raw(a) for a in e.args) and (
                        e.name != 'run_sync' or any(last_name(a) in WRITERS for a in e.args[:1])):
                    bad = 'hands a file to %s that may accept only a part of the data' % e.name
            if o.kind == 'return' and complete_writes(tr, is_raw) is not None:
                bad = bad or 'takes an incomplete write for a success'
            if bad:
                sviol(ctx, 'raw', fi, eng, o, bad, bad)
            else:
                ctx.ok('raw', fi.qual)
        for cq, a in sorted(attrs):
            if (cq, a) in done:
                continue
            done.add((cq, a))
            ci = repo.cls(cq)
            for m in repo.all_functions():
                if m.cls is not None and m.cls.qual == ci.qual and m.name != '__init__' and any(
                        isinstance(x, ast.Attribute) and x.attr == a for x in walk_own(m.node)):
                    entries.append((m, a))
            for m in src_functions(ctx, ci.mod.name if hasattr(ci, 'mod') else cq.rpartition('.')[0]):
                if m.cls is not None and m.cls.qual == ci.qual:
                    continue
                for x in walk_own(m.node):
                    if isinstance(x, ast.Call) and (
                            any(isinstance(y, ast.Attribute) and y.attr == a for y in x.args) and (
                                getattr(x.func, 'attr', getattr(x.func, 'id', '')) in WRITERS or any(isinstance(y, ast.Name) and y.id in WRITERS for y in x.args[:1]))
                            or isinstance(x.func, ast.Attribute) and x.func.attr == 'write' and isinstance(x.func.value, ast.Attribute)
                            and x.func.value.attr == a and not (isinstance(x.func.value.value, ast.Name) and x.func.value.value.id == 'self')):
                        ctx.violate('raw', m.qual, '%s writes to the unbuffered file of another object' % m.short, m.loc(x))


class DiskPolicy(OwnPolicy):
    '''Every operation on a file may fail.'''
    OPS = ('write', 'flush', 'fsync', 'copyfh', 'run_sync', 'truncate', 'readinto_fh', 'rename', 'close')

    def raises(self, ev, eng):
        if ev.kind == 'getitem':
            return ('builtins.KeyError',)
        if ev.kind != 'call':
            return ()
        if ev.qual == 'builtins.open':
            return ('builtins.FileNotFoundError',)
        if ev.name in self.OPS:
            return ('builtins.OSError',)
        return ()


def b10_errors(ctx):
    seen = set()
    for f, n, kind in open_sites(ctx):
        for g in ([f] if f.qual in known_functions() else callers(ctx, f) or [f]):
            if g.qual in seen:
                continue
            seen.add(g.qual)
            eng, outs = ctx.run(g, DiskPolicy(), TraceMonitor())
            for o in outs:
                tr = Trace(o)
                hs = set()
                for e in tr.ev:
                    if e.kind == 'call' and e.qual in ('builtins.open', 'io.open', 'io.FileIO') and writes_file(e):
                        hs |= handles(tr, e.res)
                bad = None
                if o.kind == 'return':
                    for i, e in enumerate(tr.ev[:-1]):
                        if e.kind == 'call' and tr.ev[i + 1].kind == 'fault' and tr.ev[i + 1].node == e.node and (
                                is_handle(e.recv, hs) or any(is_handle(a, hs) or a[0] == 'attr' and is_handle(a[1], hs) or any(
                                    is_handle(s, hs) for s in subterms(a)) for a in e.args)):
                            bad = 'goes on although writing a file failed'
                if bad:
                    sviol(ctx, 'errors', g, eng, o, bad, bad)
                else:
                    ctx.ok('errors', g.qual)


def b10_copy(ctx):
    '''The copying function writes everything it reads.'''
    fi = ctx.repo.func('s3ql.common.copyfh')
    names = [a.arg for a in fi.node.args.args]
    src, dst, ln = (('param', x, fi.qual) for x in names[:3])
    eng, outs = ctx.run(fi, RawPolicy(), TraceMonitor(), facts={('isnone', ln): True})
    n = 0
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        bad = None
        rd = [(i, e) for i, e in tr.calls('read') if e.recv == src]
        wr = [(i, e) for i, e in tr.calls('write') if e.recv == dst]
        n += len(wr)
        if not rd:
            bad = 'copies nothing'
        else:
            end = [e.res for e in tr.ev[rd[-1][0]:] if e.kind == 'if' and (e.recv == ('true', rd[-1][1].res) or e.recv[0] == 'eq' and rd[-1][1].res in e.recv[1:])]
            if not end:
                bad = 'stops before the end of the data'
            if [e.args[0] for _, e in wr] != [e.res for _, e in rd[:-1]]:
                bad = 'does not write everything that it reads, in order'
        if bad:
            sviol(ctx, 'copy', fi, eng, o, bad, bad)
        else:
            ctx.ok('copy', fi.qual)
    if not n:
        ctx.floor('copy', NEVER)


@check('B10', explanation='''All calls that open a file for writing are found in the source. Buffered files complete every write or raise; for
unbuffered ones every path is checked to act on the number of bytes that were accepted, and not to hand the file to code that does not. With every
file operation failing, no path of these functions goes on to success.''')
def b10(ctx):
    ctx.rule('sites', 'files are opened buffered, or their writes are checked')
    ctx.rule('raw', 'incomplete writes to unbuffered files are continued or reported')
    ctx.rule('errors', 'failed writes are not hidden')
    ctx.rule('copy', 'copying writes everything that was read')
    b10_raw(ctx)
    b10_errors(ctx)
    b10_copy(ctx)
    for r in ctx.rules:
        ctx.floor(r)

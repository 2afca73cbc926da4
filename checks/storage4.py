'''S10, S12: secrets and signatures.'''

from __future__ import annotations

import ast

from sa.baseline import known_functions
from sa.interp import FALSE, NONE, TRUE, cval, const, is_const, show, subterms
from sa.lib import is_attr, last
from sa.repo import AnalysisError, walk_own

from . import check
from .storage import Trace, TraceMonitor, dict_items, exc_name, flat_add, is_res, item, kwarg, mention, res_args, sviol
from .storage2 import B, HTTP, backends
from .storage3 import (CONN, NEVER, OwnPolicy, called, callers, handles, ifs, list_contents, mention_any, new_calls, setval, src_functions,
                       text_parts)

S3C = B + 's3c.AsyncBackend'
S3C4 = B + 's3c4.AsyncBackend'
PORTS = {'http.client.HTTPS_PORT': 443, 'http.client.HTTP_PORT': 80}


def lower_const(t):
    return cval(t).lower() if is_const(t) and isinstance(cval(t), str) else None


def header_changes(tr, h, upto=None):
    '''[(position, name or None, value)] of changes to a dictionary of headers.'''
    out = []
    for i, e in enumerate(tr.ev[:upto]):
        if e.recv != h:
            continue
        if e.kind == 'setitem':
            out.append((i, lower_const(e.args[0]), e.args[1]))
        elif e.kind == 'delitem':
            out.append((i, lower_const(e.args[0]), None))
        elif e.kind == 'call' and e.name in ('pop', 'setdefault') and e.args:
            out.append((i, lower_const(e.args[0]), e.args[1] if e.name == 'setdefault' and len(e.args) > 1 else None))
        elif e.kind == 'call' and e.name in ('update', 'clear', 'popitem'):
            out.append((i, None, None))
    return out


def contents(tr, t):
    '''Elements of a list; a generator that it was extended with counts as its element.'''
    out = list_contents(tr, t)
    if out is None and t[0] == 'obj' and t[1] == 'list':
        init = tr.o.st.heap.get((t, '$orig'))
        out = list(init[2] if init[0] == 'pure' else init[1:]) if init else []
        for e in tr.ev:
            if e.recv == t and e.kind == 'call':
                if e.name in ('append', 'extend', 'insert'):
                    out.append(e.args[-1])
                elif e.name not in ('copy', 'index', 'count'):
                    return None
    return out


class SignPolicy(OwnPolicy):
    loop_iters = 1


def through_calls(tr, v, depth=6):
    '''Subterms of a value, following the arguments of the calls that computed it.'''
    seen, todo = set(), [v]
    while todo:
        t = todo.pop()
        for s in subterms(t):
            if s in seen:
                continue
            seen.add(s)
            if s[0] in ('res', 'new'):
                for e in tr.ev:
                    if e.kind == 'call' and e.res == s:
                        todo += list(e.args) + [x for _, x in e.kw] + ([e.recv] if e.recv else [])
            elif s[0] == 'item':
                todo += [e.args[1] for e in tr.ev if e.kind == 'setitem' and e.recv == s[1] and lower_const(e.args[0]) is not None
                         and lower_const(e.args[0]) == lower_const(s[2])]
            if is_res(s, 'get') and len(res_args(s)) > 1 and lower_const(res_args(s)[1]) is not None:
                todo += [e.args[1] for e in tr.ev if e.kind == 'setitem' and e.recv == res_args(s)[0] and lower_const(
                    e.args[0]) == lower_const(res_args(s)[1])]
            if s[0] == 'obj':
                todo += contents(tr, s) or []
            elif s[0] in ('res', 'new', 'pure'):
                todo += [a for e in tr.ev if e.kind == 'call' and e.recv == s and e.name in ('append', 'extend', 'insert') for a in e.args]
    return seen


def sign_rules(ctx, qual, v4):
    fi = ctx.repo.func(qual)
    ps = [a.arg for a in fi.node.args.args]
    P = {n: ('param', n, fi.qual) for n in ps}
    method, path, hdrs, subres, query = (('param', n, fi.qual) for n in ps[1:6])
    slf = ('self', fi.cls.qual)
    eng, outs = ctx.run(fi, SignPolicy(), TraceMonitor())
    n = 0
    for o in outs:
        if o.kind != 'return':
            continue
        n += 1
        tr = Trace(o)
        bad = None
        ch = header_changes(tr, hdrs)
        auth = [(i, v) for i, k, v in ch if k == 'authorization' and tr.ev[i].kind == 'setitem']
        if not auth:
            sviol(ctx, 'covered', fi, eng, o, 'does not sign the request', 'no Authorization header is set')
            continue
        ai, av = auth[-1]
        deps = through_calls(tr, av)
        joined, text = None, None
        for s in deps:
            if is_res(s, 'join') and len(res_args(s)) == 2 and is_const(res_args(s)[0]):
                c = contents(tr, res_args(s)[1])
                if c and len(c) >= 4 and any(x == method for x in c):
                    joined, text = s, c
        if text is None:
            sviol(ctx, 'covered', fi, eng, o, 'does not sign the method and headers of the request', 'the signed text is not known')
            continue
        # time and key
        now = [s for s in deps if is_res(s, 'gmtime', 'now', 'utcnow', 'time')]
        if not now or any(a for s in now for a in res_args(s) if is_res(s, 'gmtime') and not is_res(a, 'time')):
            bad = 'does not sign the request with the current time'
        stamp = 'x-amz-date' if v4 else 'date'
        sv = [v for i, k, v in ch if k == stamp and v is not None]
        if not bad and (not sv or not any(x in through_calls(tr, sv[-1]) for x in now)):
            bad = 'does not tell the server the time that was signed'
        # iteration over the headers
        loops = [(i, e) for i, e in enumerate(tr.ev) if e.kind in ('iter', 'loopexit') and (e.recv or e.res) is not None and mention(
            e.recv if e.kind == 'iter' else e.res if e.recv is None or e.recv == () else e.recv, hdrs)]
        its = [(i, e) for i, e in loops if e.kind == 'iter']
        ends = [(i, e) for i, e in loops if e.kind == 'loopexit']
        comps = [s for x in text for s in through_calls(tr, x) if s[0] == 'pure' and s[1].startswith('comp_') and any(
            (y[0] == 'item' and y[1] == hdrs or is_res(y, 'get') and hdrs in res_args(y)) and any(
                z[0] == 'elem' and mention(z[1], hdrs) for z in subterms(y)) for y in through_calls(tr, s[2][0]))]
        if not ends and not comps:
            bad = bad or 'does not look at all headers'
        used = [i for i, e in enumerate(tr.ev) if e.kind == 'call' and any(c in e.args for c in comps)]
        first = min([x[0] for x in loops] + used + [ai])
        late = [k for i, k, v in ch if i > first and k != 'authorization']
        if late:
            bad = bad or 'changes the header %s after it was signed' % late[0]
        el = ('elem', hdrs, 0)

        def about_header(a):
            return any(s[0] == 'elem' and s[1] == hdrs for x in a[1:] if isinstance(x, tuple) for s in subterms(x))
        for a, v in tr.facts():
            if about_header(a):
                c = {lower_const(s) for x in a[1:] if isinstance(x, tuple) for s in subterms(x)} - {None}
                if not (c <= {'authorization'} or not v4 and c == {'x-amz-'} and a[0] == 'true' and is_res(a[1], 'startswith')):
                    bad = bad or 'leaves out some headers'
        for i, e in its:
            x = e.res
            if not v4 and any(a[0] == 'true' and v is False and is_res(a[1], 'startswith') and mention(a[1], x) and const('x-amz-') in res_args(a[1])
                              or a[0] == 'true' and v is False and is_res(a[1], 'startswith') and const('x-amz-') in res_args(a[1]) and any(
                                  mention(r, x) for r in through_calls(tr, a[1])) for a, v in tr.facts()):
                continue
            if not any(mention(t, x) and any((s[0] == 'item' and s[1] == hdrs or is_res(s, 'get') and hdrs in res_args(s)) and mention(s, x)
                                             for s in through_calls(tr, t)) for t in text):
                bad = bad or 'leaves out some headers'
        if not v4:
            for name in ('content-md5', 'content-type', 'date'):
                there = [v for a, v in tr.facts() if a[0] == 'in' and a[2] == hdrs and lower_const(a[1]) == name]
                if name == 'date' or True in there:
                    inc = any((s[0] == 'item' and s[1] == hdrs and lower_const(s[2]) == name or s in sv and name == 'date' or is_res(
                        s, 'get') and hdrs in res_args(s) and any(lower_const(a) == name for a in res_args(s))) for t in text for s in subterms(t))
                elif there:
                    inc = True
                else:
                    inc = any(is_res(s, 'get') and hdrs in res_args(s) and any(lower_const(a) == name for a in res_args(s)) for t in text for s in subterms(t))
                if not inc:
                    bad = bad or 'does not sign the header %s' % name
        # path and query
        if not any(is_res(s, 'quote') and mention_any(res_args(s), path) for t in text for s in through_calls(tr, t)):
            bad = bad or 'does not sign the path'
        for p, what in ((subres, 'subresource'),) + (((query, 'query'),) if v4 else ()):
            t = tr.val(('true', p))
            if t is None:
                t = tr.isnone(p)
                t = None if t is None else not t
            void = any(a[0] == 'true' and v is False and p in through_calls(tr, a[1]) for a, v in tr.facts())
            if t is not False and not void and not any(mention(x, p) or p in through_calls(tr, x) for x in text):
                bad = bad or 'does not sign the %s' % what
        # key
        if v4:
            names = [tuple(res_args(s)) for t in text for s in subterms(t) if is_res(s, 'join')]
            if not any(is_res(s, 'join') and tuple(res_args(s)) in names and mention(s, hdrs) for s in subterms(av)):
                bad = bad or 'does not announce the headers that were signed'
            gone = [i for i, k, v in ch if k == 'authorization' and v is None and i < first or k == 'authorization' and tr.ev[i].name == 'pop' and i < first]
            excl = [1 for a, v in tr.facts() if about_header(a)]
            if not gone and not excl:
                bad = bad or 'signs the signature of an earlier attempt'
            key = ('attr', slf, 'signing_key')
            ymd = None
            cur = False
            for a, v in tr.facts():
                if a[0] == 'eq' and v and any(s == key or s[0] == 'attr' and s[2] == 'signing_key' for x in a[1:] for s in subterms(x)):
                    other = [x for x in a[1:] if not any(s[0] == 'attr' and s[2] == 'signing_key' for s in subterms(x))]
                    if other and any(s in now for s in through_calls(tr, other[0])):
                        cur, ymd = True, other[0]
            for i, e in tr.calls('update_signing_key', upto=ai):
                if e.args and any(s in now for s in through_calls(tr, e.args[0])):
                    cur, ymd = True, e.args[0]
            if not any(s[0] == 'attr' and s[2] == 'signing_key' for s in deps) and slf and not any(s == ('attr', slf, 'password') for s in deps):
                bad = bad or 'does not use the secret key'
            elif not cur and not any(s == ('attr', slf, 'password') for s in deps):
                bad = bad or 'uses a signing key of another day'
        elif not any(s == ('attr', slf, 'password') for s in deps):
            bad = bad or 'does not use the secret key'
        if bad:
            sviol(ctx, 'covered', fi, eng, o, bad, bad)
        else:
            ctx.ok('covered', fi.qual)
    if not n:
        ctx.floor('covered', NEVER)


def key_rules(ctx):
    fi = ctx.repo.func(S3C4 + '.update_signing_key')
    slf = ('self', S3C4)
    ymd = ('param', fi.node.args.args[1].arg, fi.qual)
    eng, outs = ctx.run(fi, OwnPolicy(), TraceMonitor())
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        st = [setval(e) for e in tr.ev if e.kind == 'setattr' and e.name == 'signing_key']
        bad = None
        if not st or st[-1][0] != 'tuple' or len(st[-1]) != 3:
            bad = 'does not store the key together with its date'
        else:
            deps = through_calls(tr, st[-1][1])
            if st[-1][2] != ymd:
                bad = 'does not store the date of the key'
            elif ymd not in deps or ('attr', slf, 'password') not in deps or ('attr', slf, 'sig_region') not in deps:
                bad = 'does not derive the key from the secret, date and region'
        if bad:
            sviol(ctx, 'fresh', fi, eng, o, bad, bad)
        else:
            ctx.ok('fresh', fi.qual)


def region_rules(ctx):
    '''A key is forgotten when the region or the secret that it was derived from changes.'''
    base = S3C4
    subs = {x.qual for x in ctx.repo.subclasses(ctx.repo.cls(base))}
    for f in src_functions(ctx, 's3ql.backends.'):
        if f.cls is None or f.cls.qual not in subs or f.name == '__init__':
            continue
        if not any(isinstance(n, ast.Attribute) and n.attr in ('sig_region', 'password') and isinstance(n.ctx, ast.Store) for n in walk_own(f.node)):
            continue
        eng, outs = ctx.run(f, OwnPolicy(), TraceMonitor())
        for o in outs:
            tr = Trace(o)
            for i, e in enumerate(tr.ev):
                if e.kind == 'setattr' and e.name in ('sig_region', 'password'):
                    clear = [j for j, x in enumerate(tr.ev) if x.kind == 'setattr' and x.name == 'signing_key' and x.recv == e.recv and (
                        setval(x) == NONE)]
                    if not any(not any(x.kind == 'await' for x in tr.ev[min(i, j):max(i, j)]) for j in clear):
                        sviol(ctx, 'fresh', f, eng, o, 'keeps a signing key that was derived for another region', 'keeps the old signing key')
                        break
            else:
                ctx.ok('fresh', f.qual)


def send_rules(ctx):
    '''Every request is signed, and sent as it was signed.'''
    signers = {ci.qual for name in ('s3c', 's3c4', 's3', 'b2ng') for ci in [ctx.repo.cls(B + name + '.AsyncBackend')]}
    sites = 0
    seen = set()
    for f in src_functions(ctx, 's3ql.backends.'):
        if f.cls is None or f.cls.qual not in signers:
            continue
        if not any(isinstance(n, ast.Attribute) and n.attr == 'send_request' for n in walk_own(f.node)):
            continue
        for g in ([f] if f.qual in known_functions() else callers(ctx, f) or [f]):
            if g.qual in seen:
                continue
            seen.add(g.qual)
            eng, outs = ctx.run(g, OwnPolicy(), TraceMonitor())
            for o in outs:
                tr = Trace(o)
                bad = None
                snd = tr.calls('send_request')
                for i, e in snd:
                    sites += 1
                    prev = [j for j, _ in snd if j < i]
                    sg = [(j, x) for j, x in tr.calls('_authorize_request', upto=i) if not prev or j > prev[-1]]
                    h = kwarg(e, 2, 'headers')
                    if not sg:
                        if e.recv is not None and e.recv[0] in ('new', 'res') and h is None or h is not None and h[0] in ('new', 'obj') and not [
                                1 for _, k, _ in header_changes(tr, h, i) if k is None or k == 'authorization']:
                            continue        # an anonymous request
                        bad = 'sends a request that was not signed, or repeats it with an old signature'
                        continue
                    j, s = sg[-1]
                    sa = [kwarg(s, k, nm) for k, nm in enumerate(('method', 'path', 'headers', 'subres', 'query_string'))]
                    parts = text_parts(e.args[1] if len(e.args) > 1 else kwarg(e, 1, 'path'))
                    quo = parts[0] if parts and not isinstance(parts[0], str) else None
                    qa = [x for x in tr.ev if x.kind == 'call' and x.res == quo] if quo else []
                    if h != sa[2]:
                        bad = 'sends other headers than those that were signed'
                    elif [k for k, _, _ in header_changes(tr, h, i) if k > j]:
                        bad = 'changes the headers after they were signed'
                    elif kwarg(e, 0, 'method') != sa[0]:
                        bad = 'sends another method than the one that was signed'
                    elif not (is_res(quo, 'quote') if quo else False) or tuple(res_args(quo)) != (sa[1],) or any(x.kw for x in qa):
                        bad = 'sends another path than the one that was signed'
                    else:
                        for p, what in ((sa[3], 'subresource'), (sa[4], 'query')):
                            if p is None or is_const(p):
                                continue
                            t = tr.val(('true', p), i)
                            inc = any(mention(x, p) for x in parts[1:] if not isinstance(x, str))
                            if inc != (t is True) and t is not None:
                                bad = 'sends another %s than the one that was signed' % what
                if bad:
                    sviol(ctx, 'sent', g, eng, o, bad, bad)
                else:
                    ctx.ok('sent', g.qual)
    if not sites:
        ctx.floor('sent', NEVER)


def host_of(parts, slf):
    '''plain or port: how a host header is built.'''
    if parts == [('attr', slf, 'hostname')]:
        return 'plain'
    if len(parts) == 3 and parts[0] == ('attr', slf, 'hostname') and parts[1] == ':' and any(
            s == ('attr', slf, 'port') for s in subterms(parts[2])):
        return 'port'
    return None


def matches(tr, slf, ssl, port):
    for a, v in tr.facts():
        if a in (('true', ('attr', slf, 'ssl_context')),) and v != ssl:
            return False
        if a == ('isnone', ('attr', slf, 'ssl_context')) and v == ssl:
            return False
        if a[0] in ('eq', 'is') and ('attr', slf, 'port') in a[1:]:
            x = a[2] if a[1] == ('attr', slf, 'port') else a[1]
            n = cval(x) if is_const(x) else PORTS.get(x[1]) if x[0] == 'global' else None
            if n is not None and (n == port) != v:
                return False
        if a[0] == 'in' and a[1] == ('attr', slf, 'port'):
            xs = [cval(x) if is_const(x) else PORTS.get(x[1]) for x in a[2][1:]] if a[2][0] == 'tuple' else None
            if xs is not None and (port in xs) != v:
                return False
    return True


class HeadPolicy(OwnPolicy):
    '''Up to the point where the request line is sent.'''
    max_states = 60000
    max_returns = 60000


def host_rules(ctx):
    snd = ctx.repo.func(CONN + '.send_request')
    sgn = ctx.repo.func(S3C4 + '._authorize_request')
    kinds = {}
    for fi, slf, default in ((snd, ('self', CONN), None), (sgn, ('self', S3C4), 'plain')):
        eng, outs = ctx.run(fi, HeadPolicy(), TraceMonitor())
        table = {}
        for o in outs:
            tr = Trace(o)
            v = None
            for i, e in enumerate(tr.ev):
                if e.kind == 'setitem' and e.args and lower_const(e.args[0]) == 'host':
                    v = e.args[1]
            if v is None:
                if default is None or o.kind != 'return':
                    continue
                k = default
            else:
                p = text_parts(v)
                if p and isinstance(p[0], str) and p[0].startswith('['):
                    continue
                k = host_of(p, slf)
            for ssl in (True, False):
                for port in (443, 80, 8443):
                    if matches(tr, slf, ssl, port):
                        table.setdefault((ssl, port), set()).add(k)
        kinds[fi.qual] = table
    a, b = kinds[snd.qual], kinds[sgn.qual]
    for ssl in (True, False):
        for port in (443, 80, 8443):
            x, y = a.get((ssl, port), set()), b.get((ssl, port), set())
            if len(x) == 1 and len(y) == 1 and x == y and None not in x:
                ctx.ok('host', sgn.qual)
            else:
                ctx.violate('host', sgn.qual, '%s signs a different Host header than %s sends, for port %d %s TLS' % (
                    sgn.short, snd.short, port, 'with' if ssl else 'without'), sgn.loc(sgn.node))


def transport_rules(ctx):
    '''The HTTP client does not touch signed headers.'''
    fi = ctx.repo.func(CONN + '.send_request')
    hp = ('param', 'headers', fi.qual)
    eng, outs = ctx.run(fi, HeadPolicy(), TraceMonitor())
    seen = {}
    for o in outs:
        tr = Trace(o)
        for i, e in enumerate(tr.ev):
            if e.recv is None or not (e.recv == hp or e.recv[0] == 'new' and 'CaseInsensitiveDict' in str(e.recv[1])):
                continue
            if e.kind in ('setitem', 'delitem') or e.kind == 'call' and e.name in ('pop', 'update', 'clear', 'popitem', 'setdefault'):
                k = lower_const(e.args[0]) if e.args else None
                hard = e.name != 'setdefault'
                if k is None or (k not in ('content-length', 'expect', 'host', 'transfer-encoding') if hard else k not in (
                        'accept-encoding', 'connection', 'user-agent', 'content-length', 'expect', 'host')) or e.kind == 'delitem':
                    seen[k] = (o, e)
    for k, (o, e) in seen.items():
        sviol(ctx, 'sent', fi, eng, o, 'changes the header %s, which may have been signed' % k, 'header changed after signing')
    if not seen:
        ctx.ok('sent', fi.qual)
    # the pool connects to the host that is signed
    for ci in backends(ctx):
        if ci.name and ci.mod.name.rpartition('.')[2] in ('s3c', 's3c4', 's3', 'b2ng'):
            m = ctx.repo.lookup_method(ci, '_make_pool')
            if m is None:
                continue
            eng, outs = ctx.run(m, OwnPolicy(), TraceMonitor())
            for o in outs:
                tr = Trace(o)
                for i, e in new_calls(tr, HTTP + '.Pool'):
                    if not (is_attr(kwarg(e, 0, 'hostname'), 'hostname') and is_attr(kwarg(e, 1, 'port'), 'port')):
                        sviol(ctx, 'host', m, eng, o, 'connects to another host than the one that is signed', 'other host')
                    else:
                        ctx.ok('host', m.qual)


@check('S12', explanation='''Every path of the signing functions: the signed text is traced to the method, path, query and a complete loop over the
headers; no header is changed afterwards, neither by the caller nor by the HTTP client; every send is preceded by a signature of exactly its
arguments; the Host header is compared for all combinations of TLS and port.''')
def s12(ctx):
    ctx.rule('covered', 'everything that must be signed is signed, with the current time')
    ctx.rule('fresh', 'signing keys belong to their date')
    ctx.rule('sent', 'requests are sent as they were signed')
    ctx.rule('host', 'the signed host is the host that is sent')
    sign_rules(ctx, S3C + '._authorize_request', False)
    sign_rules(ctx, S3C4 + '._authorize_request', True)
    key_rules(ctx)
    region_rules(ctx)
    send_rules(ctx)
    host_rules(ctx)
    transport_rules(ctx)
    for r in ctx.rules:
        ctx.floor(r)

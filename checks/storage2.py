'''S05 - S13: storage backends and their network code.'''

from __future__ import annotations

import ast

from sa.baseline import known_functions
from sa.interp import FALSE, NONE, TRUE, Monitor, cval, const, is_const, show, subterms
from sa.lib import all_funcs_in, cls_name, is_attr, last
from sa.repo import AnalysisError, decorator_name, walk_own

from . import check
from .storage import LocalPolicy, Trace, TraceMonitor, dict_items, exc_name, flat_add, is_res, item, kwarg, mention, mget, res_args, sviol

B = 's3ql.backends.'
BACKENDS = ('local', 's3c', 's3c4', 's3', 'b2ng', 'swift', 'swiftks', 'rackspace', 'gs')
HTTP = 's3ql.http'


def backends(ctx):
    out = []
    for n in BACKENDS:
        ci = ctx.repo.cls(B + n + '.AsyncBackend', optional=True)
        if ci is not None:
            out.append(ci)
    return out


def own(ctx, name, only=BACKENDS):
    '''Implementations of a method in the storage backends (each once).'''
    seen = []
    for ci in backends(ctx):
        if ci.mod.name.rsplit('.', 1)[-1] not in only:
            continue
        fi = ctx.repo.lookup_method(ci, name)
        if fi is not None and fi not in [x for x, _ in seen] and fi.mod.name.startswith(B) and not fi.mod.name.endswith('.common'):
            seen.append((fi, ci))
    return seen


class NetPolicy(LocalPolicy):
    '''Follow calls within the backend classes, apart from the given ones.'''

    stable = frozenset(('status', 'code', 'length', 'ssl_context'))
    while_iters = 2

    def __init__(self, opaque=(), faults=None):
        self.opaque_names = frozenset(opaque)
        self.faults = faults or {}

    def inline(self, fi, eng):
        if fi.qual not in known_functions():
            return True
        if fi.name in self.opaque_names or not fi.cls:
            return False
        return fi.mod.name.startswith(B) and not fi.mod.name.endswith('.common') and 'AsyncBackend' in fi.qual

    def raises(self, ev, eng):
        return self.faults.get(ev.name, ())


PRIMS = ('_extractmeta', '_borrow_conn', '_do_request_inner', '_parse_error_response', '_do_authentication_expired', '_parse_xml_response',
         'delete', '_add_meta_headers', '_make_pool', '_delete_multi', '_list_page')


def retried(ctx, fi):
    '''Is the function repeated by the retry decorator of the backends?'''
    for d in fi.node.decorator_list:
        q = ctx.repo.canonical(ctx.repo.dotted_expr(fi.mod, d) or '') if isinstance(d, (ast.Name, ast.Attribute)) else None
        if q == B + 'common.retry':
            return True
    return False


def etag_of(t):
    '''Response that a term's ETag header belongs to.'''
    for x in subterms(t):
        h = None
        if x[0] == 'item' and is_const(x[2]) and str(cval(x[2])).lower() == 'etag':
            h = x[1]
        elif is_res(x, 'get', 'get_all') and len(res_args(x)) >= 2 and is_const(res_args(x)[1]) and str(cval(res_args(x)[1])).lower() == 'etag':
            h = res_args(x)[0]
        if h is not None and is_attr(h, 'headers'):
            return h[1]
    return None


# -------------------------------------------------------------------------------------------
# S05

def s05_download(ctx):
    for fi, ci in own(ctx, 'readinto_fh', ('s3c', 's3c4', 's3', 'b2ng', 'swift', 'swiftks', 'rackspace')):
        eng, outs = ctx.run(fi, NetPolicy(PRIMS + ('_do_request',)), TraceMonitor(), selfterm=('self', ci.qual))
        n = 0
        for o in outs:
            if o.kind != 'return':
                continue
            n += 1
            tr = Trace(o)
            dl = [(i, e) for i, e in tr.calls('readinto_fh', 'readinto') if e.recv and e.recv[0] != 'self']
            if not dl:
                sviol(ctx, 'download', fi, eng, o, 'returns without having transferred any data', 'no data')
                continue
            i, e = dl[-1]
            upd = kwarg(e, 1, 'update')
            if not (upd and is_attr(upd, 'update') and is_res(upd[1], 'md5')):
                sviol(ctx, 'download', fi, eng, o, 'does not compute the checksum of the data as it is received', 'no checksum')
                continue
            md5 = upd[1]
            good = False
            for j, x in enumerate(tr.ev):
                if x.kind == 'if' and x.res is True and x.recv[0] == 'eq' and j > i:
                    a, b = x.recv[1:]
                    for p, q in ((a, b), (b, a)):
                        r = etag_of(p)
                        if r is not None and is_res(q, 'hexdigest') and res_args(q)[0] == md5 and is_res(r, '_do_request'):
                            k = [m for m, y in tr.calls('hexdigest', upto=j) if y.recv == md5]
                            if k and k[-1] > i:
                                good = r
            if not good:
                sviol(ctx, 'download', fi, eng, o, 'returns although the checksum of the received data was not found equal to the one of the '
                      'server', 'unverified data')
                continue
            if not (is_res(o.val, '_extractmeta') and mention(o.val, good)):
                sviol(ctx, 'metadata', fi, eng, o, 'returns metadata that was not verified', 'unverified metadata')
                continue
            ctx.ok('download', fi.qual)
        if not n:
            ctx.floor('download', 10 ** 6)


def s05_meta(ctx):
    seen = set()
    for name in ('lookup', 'readinto_fh'):
        for fi, ci in own(ctx, name, ('s3c', 's3c4', 's3', 'b2ng', 'swift', 'swiftks', 'rackspace')):
            eng, outs = ctx.run(fi, NetPolicy(PRIMS + ('_do_request',)), TraceMonitor(), selfterm=('self', ci.qual))
            for o in outs:
                if o.kind == 'return':
                    if is_res(o.val, '_extractmeta'):
                        ctx.ok('metadata', fi.qual)
                    else:
                        sviol(ctx, 'metadata', fi, eng, o, 'returns metadata that was not verified', 'unverified')
    for fi, ci in own(ctx, '_extractmeta', ('s3c', 's3c4', 's3', 'b2ng', 'swift', 'swiftks', 'rackspace')):
        eng, outs = ctx.run(fi, LocalPolicy(), TraceMonitor(), selfterm=('self', ci.qual))
        for o in outs:
            if o.kind != 'return':
                continue
            tr = Trace(o)
            if is_res(o.val, '_extractmeta'):
                ctx.ok('metadata', fi.qual)
                continue
            good = False
            for a, v in tr.facts():
                if a[0] == 'eq' and v:
                    for p, q in ((a[1], a[2]), (a[2], a[1])):
                        hd = [x for x in subterms(q) if is_res(x, 'get') and any('meta-md5' in show(y) for y in res_args(x)[1:])]
                        ck = [x for x in subterms(p) if is_res(x, 'checksum_basic_mapping')]
                        if hd and ck and res_args(ck[0])[-1] == o.val:
                            good = True
            if good:
                ctx.ok('metadata', fi.qual)
            else:
                sviol(ctx, 'metadata', fi, eng, o, 'returns metadata that does not match its checksum', 'checksum')


def s05_upload(ctx):
    for fi, ci in own(ctx, 'write_fh', ('s3c', 's3c4', 's3', 'b2ng', 'swift', 'swiftks', 'rackspace')):
        pol = NetPolicy(PRIMS, {'_parse_error_response': (B + 's3c.BadDigestError',), '_do_authentication_expired': (
            B + 'swift.AuthenticationExpired',)})
        eng, outs = ctx.run(fi, pol, TraceMonitor(), selfterm=('self', ci.qual))
        for o in outs:
            tr = Trace(o)
            if [1 for a, v in tr.facts() if v and a[0] == 'isnone' and is_res(a[1], 'hash_fh')]:
                continue
            put = [(i, e) for i, e in tr.calls('send_request', '_do_request_inner')]
            eqs = []
            for i, x in enumerate(tr.ev):
                if x.kind == 'if' and x.recv[0] == 'eq':
                    for p, q in (x.recv[1:], x.recv[:0:-1]):
                        if etag_of(p) is not None and is_res(q, 'hash_fh'):
                            eqs.append((i, x.res, etag_of(p)))
            if o.kind == 'return':
                tls = [a for a, v in tr.facts() if v and (a[0] == 'true' and is_attr(a[1], 'ssl_context'))]
                tls += [a for a, v in tr.facts() if not v and (a[0] == 'isnone' and is_attr(a[1], 'ssl_context'))]
                sw = 'swift' in fi.mod.name
                if sw:
                    # the object's own context says nothing about the connection
                    tls = [a for a in tls if a[1][1][0] != 'self']
                ok = [1 for i, v, r in eqs if v is True and put and (mention(r, ('?',)) or is_res(r, 'send_request', '_do_request_inner'))]
                if not put:
                    sviol(ctx, 'upload', fi, eng, o, 'returns without having sent the object', 'nothing sent')
                elif tls or ok:
                    ctx.ok('upload', fi.qual)
                else:
                    sviol(ctx, 'upload', fi, eng, o, 'returns after sending the object over an unencrypted connection without comparing the '
                          'checksum of the server', 'unverified upload')
                if [1 for i, v, r in eqs if v is False]:
                    sviol(ctx, 'upload', fi, eng, o, 'succeeds although the server received different data', 'mismatch')
            elif exc_name(o) and exc_name(o).endswith('BadDigestError'):
                de = [e for i, e in tr.calls('delete') if e.recv and e.recv[0] in ('self', 'param')]
                if de and de[-1].args and de[-1].args[0] == ('param', 'key', fi.qual):
                    ctx.ok('cleanup', fi.qual)
                else:
                    sviol(ctx, 'cleanup', fi, eng, o, 'leaves an object on the server that arrived damaged', 'not deleted')
            elif [1 for i, v, r in eqs if v is False]:
                sviol(ctx, 'cleanup', fi, eng, o, 'does not report a damaged transfer as such', 'wrong error')


@check('S05', explanation='''Every path of the upload, download and metadata functions of the S3 and Swift backends is enumerated. A
download may return only after the checksum computed over the received bytes compared equal to the ETag of the same response; metadata only if
its stored checksum matches; an upload only if the connection is encrypted or the ETag equals the checksum of the data. A mismatch deletes the
object and raises an error that is_temp_failure recognizes inside a function that is repeated.''')
def s05(ctx):
    ctx.rule('download', 'received data is accepted only if it matches the checksum of the server')
    ctx.rule('metadata', 'metadata is accepted only if its checksum matches')
    ctx.rule('upload', 'data sent without encryption is verified against the checksum of the server')
    ctx.rule('cleanup', 'a damaged upload is deleted')
    ctx.rule('repeated', 'a damaged transfer is repeated')
    s05_download(ctx)
    s05_meta(ctx)
    s05_upload(ctx)
    temp_rules(ctx, 'repeated', ('BadDigestError',))
    for name in ('readinto_fh', 'write_fh', 'lookup'):
        for fi, ci in own(ctx, name, ('s3c', 's3c4', 's3', 'b2ng', 'swift', 'swiftks', 'rackspace')):
            if retried(ctx, fi) or all(retried(ctx, t) for n, t in callees(ctx, ci, fi)):
                ctx.ok('repeated', fi.qual)
            else:
                ctx.violate('repeated', fi.qual, '%s is not repeated when a transfer arrived damaged' % fi.short, fi.loc())
    for r in ctx.rules:
        ctx.floor(r)


# -------------------------------------------------------------------------------------------
# S06

H = HTTP + '.'
NETWORK = ('socket.timeout', 'builtins.ConnectionError', 'builtins.ConnectionResetError', 'builtins.BrokenPipeError', 'builtins.TimeoutError',
           'builtins.InterruptedError', H + 'ConnectionClosed', H + 'ConnectionTimedOut', H + 'DNSUnavailable', 'ssl.SSLZeroReturnError',
           'ssl.SSLEOFError', 'ssl.SSLSyscallError', 'httpcore.ConnectError', 'httpcore.ConnectTimeout', 'httpcore.ReadError',
           'httpcore.ReadTimeout', 'httpcore.WriteError', 'httpcore.WriteTimeout', 'h11.RemoteProtocolError')
S3C = tuple(B + 's3c.' + x for x in (
    'InternalError', 'BadDigestError', 'IncompleteBodyError', 'RequestTimeoutError', 'OperationAbortedError', 'SlowDownError',
    'ServiceUnavailableError', 'TemporarilyUnavailableError')) + ('ssl.SSLError',)
SWIFT = tuple(B + 'swift.' + x for x in ('AuthenticationExpired', 'BadDigestError', 'ServerResponseError'))
GS = tuple(B + 'gs.' + x for x in ('AccessTokenExpired', 'ServerResponseError')) + ('ssl.SSLError', 'google.auth.exceptions.TransportError')
TEMPORARY = {'s3c': NETWORK + S3C, 'swift': NETWORK + SWIFT, 'gs': NETWORK + GS}
HTTP_ERROR = {'s3c': (B + 's3c.HTTPError', 'status'), 'swift': (B + 'swift.HTTPError', 'status'), 'gs': (B + 'gs.RequestError', 'code')}
COMMON_PERM = tuple(B + 'common.' + x for x in ('NoSuchObject', 'DanglingStorageURLError', 'AuthorizationError', 'AuthenticationError',
                                                 'CorruptedObjectError')) + (
    'builtins.ValueError', 'builtins.RuntimeError', 'builtins.AssertionError', H + 'HostnameNotResolvable', 'trio.Cancelled',
    'builtins.KeyError', 'builtins.MemoryError')
PERMANENT = {'s3c': COMMON_PERM + tuple(B + 's3c.' + x for x in ('NoSuchKeyError', 'AccessDeniedError', 'S3Error')),
             'swift': COMMON_PERM, 'gs': COMMON_PERM}
RETRY_STATUS = (408, 429, 500, 502, 503, 504)
FINAL_STATUS = (400, 401, 403, 404, 405, 409, 410, 411, 412, 413, 414, 416, 422)


class TempPolicy(LocalPolicy):
    def inline(self, fi, eng):
        return fi.qual not in known_functions() or fi.name in ('is_temp_network_error', 'is_temp_failure')


def class_names(t):
    if t[0] == 'tuple':
        out = []
        for x in t[1:]:
            out += class_names(x)
        return out
    if t[0] in ('cls', 'global', 'ext', 'name'):
        return [t[1]]
    if t[0] == 'attr':
        b = class_names(t[1])
        return ['%s.%s' % (b[0], t[2])] if b else []
    return []


def num(t, sub):
    if sub(t) is not None:
        return sub(t)
    return cval(t) if is_const(t) and isinstance(cval(t), (int, float)) else None


def elements(st, t):
    if t[0] == 'tuple':
        return t[1:]
    if is_const(t) and isinstance(cval(t), (tuple, frozenset, list, set)):
        return [const(x) for x in cval(t)]
    if t[0] == 'obj':
        init = st.heap.get((t, '$init'))
        return init[1:] if init else None
    if is_res(t, 'frozenset', 'set', 'tuple', 'list') and res_args(t):
        return elements(st, res_args(t)[-1])
    return None


def holds(st, eng, a, exc, cls, attr=None, value=None):
    '''Truth of an atom for an exception of class *cls* (with the given attribute), None if unknown.'''

    def sub(t):
        return value if attr and t == ('attr', exc, attr) else None

    if a[0] == 'isinst' and a[1] == exc:
        return any(eng.is_sub(cls, n) for n in class_names(a[2]))
    if a[0] in ('lt', 'eq'):
        x, y = num(a[1], sub), num(a[2], sub)
        if x is not None and y is not None:
            return x < y if a[0] == 'lt' else x == y
    elif a[0] == 'in' and value is not None and sub(a[1]) is not None:
        els = elements(st, a[2])
        els = [num(x, sub) for x in els] if els is not None else None
        if els is not None and None not in els:
            return value in els
    elif a[0] == 'in' and is_const(a[1]) and isinstance(cval(a[1]), str):
        return False            # a special error text: nothing is required of it
    elif a[0] == 'true' and is_res(a[1], 'startswith'):
        return False
    elif a[0] == 'in' and attr is None and 'errno' in show(a[1]):
        return False
    return None


def consistent(tr, eng, exc, cls, attr=None, value=None):
    '''Can the path be taken with an exception of class *cls*?'''
    for a, v in tr.facts():
        h = holds(tr.o.st, eng, a, exc, cls, attr, value)
        if h is not None and h != v:
            return False
    return True


def verdicts(outs, eng, exc, cls, attr=None, value=None):
    cls = eng.repo.canonical(cls) or cls
    r = set()
    for o in outs:
        if o.kind == 'raise':
            if consistent(Trace(o), eng, exc, cls, attr, value):
                r.add('raise')
            continue
        tr = Trace(o)
        if consistent(tr, eng, exc, cls, attr, value):
            v = o.val
            if is_const(v):
                r.add(bool(cval(v)))
                continue
            neg = False
            while v[0] == 'not' or v[0] == 'pure' and v[1] == 'not':
                neg, v = not neg, v[1] if v[0] == 'not' else v[2][0]
            h = holds(o.st, eng, v[1], exc, cls, attr, value) if v[0] == 'cmp' else None
            r.add(show(v) if h is None else (h == v[2]) != neg)
    return r


def temp_rules(ctx, rule, only=None):
    n = 0
    for fi, ci in own(ctx, 'is_temp_failure', ('s3c', 's3c4', 's3', 'b2ng', 'swift', 'swiftks', 'rackspace', 'gs')):
        kind = fi.mod.name.rsplit('.', 1)[-1]
        fam = [k for k in ('s3c', 'swift', 'gs') if any(c.qual == B + k + '.AsyncBackend' for c in ctx.repo.mro(ci))][0]
        p = ('param', fi.node.args.args[1].arg, fi.qual)
        eng, outs = ctx.run(fi, TempPolicy(), TraceMonitor(), selfterm=('self', ci.qual))
        for cls in TEMPORARY[fam]:
            if only and last(cls) not in only:
                continue
            if cls.startswith('s3ql.') and ctx.repo.cls(cls, optional=True) is None:
                continue
            r = verdicts(outs, eng, p, cls)
            n += 1
            if r != {True}:
                ctx.violate(rule, '%s: %s' % (fi.qual, last(cls)), '%s.%s does not treat %s as a temporary failure, the operation is not repeated'
                            % (kind, fi.name, cls), fi.loc())
            else:
                ctx.ok(rule, '%s: %s' % (fi.qual, cls))
        if only:
            continue
        cls, attr = HTTP_ERROR[fam]
        for s in RETRY_STATUS + FINAL_STATUS:
            want = s in RETRY_STATUS
            r = verdicts(outs, eng, p, cls, attr, s)
            n += 1
            if r != {want}:
                ctx.violate(rule, '%s: HTTP %d' % (fi.qual, s), '%s.%s treats HTTP status %d as %s' % (
                    kind, fi.name, s, 'permanent' if want else 'temporary'), fi.loc())
            else:
                ctx.ok(rule, '%s: HTTP %d' % (fi.qual, s))
        for cls in PERMANENT[fam]:
            r = verdicts(outs, eng, p, cls)
            n += 1
            if r != {False}:
                ctx.violate(rule, '%s: %s' % (fi.qual, last(cls)), '%s.%s repeats an operation after %s, which is permanent' % (
                    kind, fi.name, cls), fi.loc())
            else:
                ctx.ok(rule, '%s: %s' % (fi.qual, cls))
    return n


def wrapped_of(ctx):
    fi = ctx.repo.func(B + 'common.retry')
    nested = [x for x in ast.walk(fi.node) if isinstance(x, ast.AsyncFunctionDef) and x is not fi.node]
    if len(nested) != 1:
        raise AnalysisError('retry: expected one nested coroutine')
    from sa.repo import FuncInfo

    return fi, FuncInfo(fi.mod, None, nested[0].name, nested[0], fi)


class RetryPolicy(LocalPolicy):
    max_states = 20000

    def __init__(self, method):
        self.method = method

    def raises(self, ev, eng):
        return ('xmod.SomeError', 'trio.Cancelled') if self.method in (ev.recv, ev.qual) else ()


def wrapper_rules(ctx):
    fi, w = wrapped_of(ctx)
    m = ('param', fi.node.args.args[0].arg, fi.qual)
    eng, outs = ctx.run(w, RetryPolicy(m), TraceMonitor(), bind={fi.node.args.args[0].arg: m})
    va, ka = w.node.args.vararg, w.node.args.kwarg
    for o in outs:
        tr = Trace(o)
        bad = None
        state = None
        slept = False
        after = None
        for i, e in enumerate(tr.ev):
            if e.kind == 'call' and e.recv == m:
                a = [show(x) for x in e.args]
                if not (len(e.args) == 1 and e.args[0][0] == 'star' and va and mention(e.args[0], ('param', '*' + va.arg, w.qual))
                        and len(e.kw) == 1 and e.kw[0][0] == '**'):
                    bad = ('does not repeat the call with the arguments of the caller', 'arguments %s' % a)
                if state == 'temp' and not slept:
                    bad = ('repeats the call without waiting', 'no delay')
                if state == 'perm':
                    bad = ('repeats the call after a permanent error', 'permanent')
                state, slept, after = 'called', False, None
            elif e.kind == 'fault' and e.recv == m:
                state = 'failed' if last(str(e.res)) != 'Cancelled' else 'cancelled'
            elif e.kind == 'if' and e.recv[0] == 'true' and is_res(e.recv[1], 'is_temp_failure'):
                x = res_args(e.recv[1])
                if not (x and x[-1][0] == 'exc' and last(x[-1][1]) == 'SomeError'):
                    bad = ('does not classify the error that occurred', 'classify')
                if state == 'failed':
                    state = 'temp' if e.res else 'perm'
            elif e.kind == 'if' and e.recv[0] == 'true' and is_res(e.recv[1], 'getattr') and e.res and state == 'temp':
                if any(v and f[0] == 'isinst' and f[1] == e.recv[1] for f, v in tr.facts(upto=i)):
                    after = e.recv[1]
            elif e.kind == 'call' and e.name == 'sleep':
                slept = True
                if after is not None and not any(mention(x, after) for x in e.args):
                    bad = ('ignores the delay that the server asked for', 'retry-after')
        if bad is None:
            exc = exc_name(o)
            if o.kind == 'return':
                if state != 'called':
                    bad = ('returns without the operation having succeeded', 'swallowed')
                elif is_const(o.val):
                    bad = ('drops the result of the operation', 'result')
            elif state == 'cancelled':
                if not (exc and exc.endswith('Cancelled')):
                    bad = ('turns a cancellation into another error', 'cancelled')
            elif state == 'perm':
                if not (exc and exc.endswith('SomeError')):
                    bad = ('does not pass on a permanent error', 'permanent')
            elif state == 'temp':
                lim = [1 for a, v in tr.facts() if a[0] == 'lt' and 'RETRY_TIMEOUT' in show(a) or a[0] == 'lt' and v and (
                    is_const(a[1]) and cval(a[1]) >= 3600)]
                if not (exc and exc.endswith('TimeoutError') and lim):
                    bad = ('gives up after a temporary error although the time limit is not reached', 'gives up')
        if bad:
            sviol(ctx, 'wrapper', w, eng, o, bad[0], bad[1])
        else:
            ctx.ok('wrapper', w.qual)


def gives_up(ctx):
    '''The operation is abandoned only for a permanent error or when the time limit is over.'''
    fi, w = wrapped_of(ctx)
    defs = {}
    for n in ast.walk(w.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    defs.setdefault(t.id, []).append(n.value)
        elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name) and n.value is not None:
            defs.setdefault(n.target.id, []).append(n.value)

    def mentions(e, depth=0):
        for x in ast.walk(e):
            nm = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
            if nm in ('is_temp_failure', 'RETRY_TIMEOUT'):
                return True
            if nm in defs and depth < 4 and any(mentions(d, depth + 1) for d in defs[nm]):
                return True
        return False

    def visit(body, ok):
        for n in body:
            if isinstance(n, (ast.Raise, ast.Break)):
                if ok:
                    ctx.ok('wrapper', 'raise at %s' % w.loc(n))
                else:
                    ctx.violate('wrapper', '%s: gives up' % w.qual, 'retry gives up although the error is temporary and the time limit is '
                                'not over', w.loc(n))
            elif isinstance(n, ast.If):
                k = ok or mentions(n.test)
                visit(n.body, k)
                visit(n.orelse, k)
                ok = ok or k and bool(n.body) and isinstance(n.body[-1], ast.Continue)
            else:
                for f in ('body', 'orelse', 'finalbody'):
                    visit(getattr(n, f, None) or [], ok)
                for h in getattr(n, 'handlers', None) or []:
                    visit(h.body, ok)

    visit(w.node.body, False)


def calls_in(fi):
    for n in walk_own(fi.node):
        if isinstance(n, ast.Call):
            yield n


CONN = ('send_request', 'connect_tcp')


def makes_connection(ctx, fi, n):
    f = n.func
    if isinstance(f, ast.Attribute) and f.attr == 'get' and isinstance(f.value, ast.Attribute) and 'pool' in f.value.attr:
        return True
    q = ctx.repo.canonical(ctx.repo.dotted_expr(fi.mod, f) or '') if isinstance(f, (ast.Name, ast.Attribute)) else ''
    return q == HTTP + '.HTTPConnection' or isinstance(f, ast.Attribute) and f.attr in CONN


def callees(ctx, ci, fi):
    for n in calls_in(fi):
        f = n.func
        if isinstance(f, ast.Attribute):
            v = f.value
            sup = isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super'
            if isinstance(v, ast.Name) or sup:
                if sup and fi.cls is not None:
                    mro = ctx.repo.mro(ci)
                    k = [i for i, c in enumerate(mro) if c.qual == fi.cls.qual]
                    t = None
                    for c in (mro[k[0] + 1:] if k else ()):
                        t = c.methods.get(f.attr)
                        if t:
                            break
                else:
                    t = ctx.repo.lookup_method(ci, f.attr)
                if t is not None and not (isinstance(v, ast.Name) and v.id in fi.mod.imports):
                    yield n, t
        elif isinstance(f, ast.Name):
            e = fi.mod.resolve(f.id)
            q = ctx.repo.canonical(ctx.repo.dotted_expr(fi.mod, f) or '') or ''
            t = ctx.repo.func(q, optional=True) if q.startswith(B) else None
            if t is not None:
                yield n, t


def repeated_rules(ctx):
    for ci in backends(ctx):
        if ci.mod.name.endswith('.local'):
            continue
        names = set()
        for c in ctx.repo.mro(ci):
            names |= set(c.methods)
        for name in sorted(names):
            if name.startswith('_') and name not in ('__aenter__', '__aexit__'):
                continue
            fi = ctx.repo.lookup_method(ci, name)
            todo, seen = [(fi, ())], set()
            while todo:
                f, path = todo.pop()
                if f.qual in seen or retried(ctx, f):
                    continue
                seen.add(f.qual)
                bad = [n for n in calls_in(f) if makes_connection(ctx, f, n)]
                if bad:
                    ctx.violate('repeated', '%s: %s' % (ci.qual, f.qual), '%s.%s accesses the network (%s) outside of a function that is '
                                'repeated after temporary errors' % (ci.mod.name, name, ' -> '.join([x.short for x in path + (f,)])),
                                f.loc(bad[0]))
                for n, t in callees(ctx, ci, f):
                    todo.append((t, path + (f,)))
            ctx.ok('repeated', '%s.%s' % (ci.qual, name))


def restart_rules(ctx):
    done = set()
    for ci in backends(ctx):
        if ci.mod.name.endswith('.local'):
            continue
        mro = ctx.repo.mro(ci)
        for c in mro:
            for fi in c.methods.values():
                if fi.qual in done or not any(isinstance(n.func, ast.Attribute) and n.func.attr == 'readinto_fh' and not (
                        isinstance(n.func.value, ast.Name) and n.func.value.id == 'self') for n in calls_in(fi)):
                    continue
                if not fi.mod.name.startswith(B) or fi.mod.name.endswith('.common'):
                    continue
                done.add(fi.qual)
                eng, outs = ctx.run(fi, LocalPolicy(), TraceMonitor(), selfterm=('self', ci.qual))
                names = set()
                for o in outs:
                    tr = Trace(o)
                    for i, e in tr.calls('readinto_fh'):
                        fh = e.args[0] if e.args else dict(e.kw).get('ofh')
                        sk = [x for j, x in tr.calls('seek', upto=i) if x.recv == fh]
                        wr = [x for j, x in tr.calls('write', upto=i) if x.recv == fh]
                        ok = sk and sk[-1].args and len(sk[-1].args) == 1 and sk[-1].args[0][0] == 'param' and not wr
                        if ok:
                            names.add(sk[-1].args[0][1])
                            ctx.ok('restart', fi.qual)
                        else:
                            sviol(ctx, 'restart', fi, eng, o, 'does not start at the original position of the destination when repeated',
                                  'no seek')
                # the position must have been determined outside of the part that is repeated
                if retried(ctx, fi):
                    params = [a.arg for a in fi.node.args.args]
                    for g in c.methods.values():
                        if any(isinstance(n.func, ast.Attribute) and n.func.attr == fi.name and isinstance(n.func.value, ast.Name)
                               for n in calls_in(g)):
                            eng, outs = ctx.run(g, LocalPolicy(), TraceMonitor(), selfterm=('self', ci.qual))
                            for o in outs:
                                tr = Trace(o)
                                for i, e in tr.calls(fi.name):
                                    for p in names:
                                        a = kwarg(e, params.index(p) - 1, p)
                                        if a is not None and is_res(a, 'tell'):
                                            ctx.ok('restart', g.qual)
                                        else:
                                            sviol(ctx, 'restart', g, eng, o, 'does not pass the current position of the destination',
                                                  'position')


def resend_rules(ctx):
    fi = ctx.repo.func(HTTP + '.HTTPConnection._stream_file', optional=True) or ctx.repo.func(HTTP + '.HTTPConnection.send_request')
    eng, outs = ctx.run(fi, LocalPolicy(), TraceMonitor())
    for o in outs:
        tr = Trace(o)
        rd = [i for i, e in enumerate(tr.ev) if e.kind == 'call' and e.name == 'read' and e.recv and e.recv[0] == 'param']
        if not rd:
            continue
        fh = tr.ev[rd[0]].recv
        sk = [e for i, e in tr.calls('seek', upto=rd[0]) if e.recv == fh and e.args and e.args[0] == const(0)]
        if sk:
            ctx.ok('resend', fi.qual)
        else:
            sviol(ctx, 'resend', fi, eng, o, 'does not send a request body from its beginning', 'no seek')
    for fi, ci in own(ctx, 'write_fh', tuple(x for x in BACKENDS if x != 'local')):
        eng, outs = ctx.run(fi, NetPolicy(PRIMS + ('_do_request', 'send_request')), TraceMonitor(), selfterm=('self', ci.qual))
        for o in outs:
            tr = Trace(o)
            if o.kind != 'return':
                continue
            body = [kwarg(e, 99, 'body') for i, e in tr.calls('_do_request', 'send_request', '_do_request_inner')]
            body = [b for b in body if b is not None]
            fhs = []
            for b in body:
                els = [x for x in subterms(b) if x[0] == 'param'] if b[0] == 'tuple' else []
                if b[0] == 'obj':
                    els = [x for x in subterms(o.st.heap.get((b, '$init'), ())) if isinstance(x, tuple) and x and x[0] == 'param']
                fhs += els
            if ('param', 'fh', fi.qual) in fhs and not [1 for i, e in tr.calls('read') if e.recv == ('param', 'fh', fi.qual)]:
                ctx.ok('resend', fi.qual)
            else:
                sviol(ctx, 'resend', fi, eng, o, 'does not pass the complete file on as request body', 'body %s' % [show(b) for b in body])


@check('S06', explanation='''The retry decorator is executed symbolically with an operation that succeeds, fails or is cancelled: every path
must return the result, pass on permanent errors and cancellation, and wait and call again with the same arguments after temporary ones. The
error classification of each backend is decided for every required error class and HTTP status by discarding the paths that contradict the
class. The call graph shows that no public operation reaches the network except through a repeated function, and all paths to a download
rewind the destination to a position determined before.''')
def s06(ctx):
    ctx.rule('wrapper', 'the decorator repeats after temporary errors only, with the same arguments, after a delay')
    ctx.rule('classes', 'temporary and permanent errors are distinguished')
    ctx.rule('repeated', 'the network is accessed only inside of functions that are repeated')
    ctx.rule('restart', 'a repeated download starts at the original position')
    ctx.rule('resend', 'a repeated upload sends the complete body')
    wrapper_rules(ctx)
    gives_up(ctx)
    temp_rules(ctx, 'classes')
    repeated_rules(ctx)
    restart_rules(ctx)
    resend_rules(ctx)
    for r in ctx.rules:
        ctx.floor(r)


# -------------------------------------------------------------------------------------------
# S07

NSO = B + 'common.NoSuchObject'


class GsPolicy(NetPolicy):
    def inline(self, fi, eng):
        return fi.name == '_map_request_error' or super().inline(fi, eng)


def fault_op(tr, i):
    '''Name of the operation that fails with event i.'''
    for e in reversed(tr.ev[:i]):
        if e.kind == 'call' and e.node == tr.ev[i].node:
            return e.name
    return None


OTHER_STATUS = (400, 401, 403, 405, 409, 410, 412, 416, 429, 500, 502, 503)


def last_fault(tr, names):
    r = None
    for i, e in enumerate(tr.ev):
        if e.kind == 'fault' and fault_op(tr, i) in names:
            r = (i, e.res)
    return r


def missing_rules(ctx):
    for ci in backends(ctx):
        n = ci.mod.name.rsplit('.', 1)[-1]
        fam = 'local' if n == 'local' else [k for k in ('s3c', 'swift', 'gs') if any(c.qual == B + k + '.AsyncBackend'
                                                                                        for c in ctx.repo.mro(ci))][0]
        if n not in ('local', 's3c', 'swift', 'gs') and not any(
                ctx.repo.lookup_method(ci, x).cls.qual == ci.qual for x in ('lookup', 'get_size', 'readinto_fh', 'delete')):
            continue
        for op in ('lookup', 'get_size', 'readinto_fh', 'delete'):
            fi = ctx.repo.lookup_method(ci, op)
            if fam == 'local':
                prim = ('open', 'getsize', 'stat', 'lstat', 'unlink', 'remove')
                cls, attr, other = 'builtins.FileNotFoundError', None, 'builtins.PermissionError'
            else:
                prim = ('_do_request',)
                cls, attr = HTTP_ERROR[fam]
                other = None
                if fam == 's3c' and op in ('readinto_fh', 'delete'):
                    cls, attr, other = B + 's3c.NoSuchKeyError', None, B + 's3c.AccessDeniedError'
            cls = ctx.repo.canonical(cls) or cls
            faults = {p: (cls,) + ((other,) if other else ()) for p in prim}
            pol = GsPolicy(tuple(p for p in PRIMS if p not in ('delete', '_get_gs_meta')) + ('_do_request',), faults)
            key = ('param', fi.node.args.args[1].arg, fi.qual)      # object names are not empty
            eng, outs = ctx.run(fi, pol, TraceMonitor(), selfterm=('self', ci.qual), facts={('true', key): True})
            seen = 0
            for o in outs:
                tr = Trace(o)
                f = last_fault(tr, prim)
                if f is None:
                    if o.kind == 'raise' and exc_name(o) == NSO:
                        sviol(ctx, 'missing', fi, eng, o, 'reports an object as missing although the server did not say so', 'spurious')
                    continue
                e = [x for x in tr.ev[f[0]:] if x.kind == 'handler' and x.res and x.res[0] == 'exc']
                exc = e[0].res if e else o.val
                fc = str(f[1])
                lost = eng.is_sub(fc, cls) and (attr is None or consistent(tr, eng, exc, cls, attr, 404))
                err = not eng.is_sub(fc, cls) or attr is not None and any(
                    consistent(tr, eng, exc, cls, attr, x) for x in OTHER_STATUS)
                name = exc_name(o)
                if op != 'delete':
                    if lost and not err and name != NSO:
                        sviol(ctx, 'missing', fi, eng, o, 'does not report a missing object as NoSuchObject', 'not reported')
                        continue
                    if err and (o.kind == 'return' or name == NSO):
                        sviol(ctx, 'missing', fi, eng, o, 'treats another error (%s) like a missing object' % last(fc), 'other error')
                        continue
                    if lost and err and name != NSO:
                        sviol(ctx, 'missing', fi, eng, o, 'does not distinguish a missing object from other errors', 'not distinguished')
                        continue
                else:
                    if lost and not err and o.kind != 'return':
                        sviol(ctx, 'missing', fi, eng, o, 'fails if the object does not exist', 'fails')
                        continue
                    if err and o.kind == 'return':
                        sviol(ctx, 'missing', fi, eng, o, 'reports success although the deletion failed (%s)' % last(fc), 'swallowed')
                        continue
                    if lost and err:
                        sviol(ctx, 'missing', fi, eng, o, 'does not distinguish a missing object from other errors', 'not distinguished')
                        continue
                seen += 1
                ctx.ok('missing', '%s.%s' % (ci.qual, op))
            if not seen:
                ctx.violate('missing', '%s.%s' % (ci.qual, op), '%s.%s: no path handles a missing object' % (n, op), fi.loc())
    # wrapper: passed on unchanged
    for op in ('get_size', 'contains', 'delete', 'delete_multi'):
        fi = ctx.repo.lookup_method(ctx.repo.cls('s3ql.backends.comprenc.AsyncComprencBackend'), op)
        eng, outs = ctx.run(fi, LocalPolicy(), TraceMonitor())
        for o in outs:
            tr = Trace(o)
            p = ('param', fi.node.args.args[1].arg, fi.qual)
            c = [e for i, e in tr.calls(op) if e.recv and is_attr(e.recv, 'backend')]
            if o.kind == 'return' and (len(c) != 1 or not c[0].args or c[0].args[0] != p or op in ('get_size', 'contains') and o.val != c[0].res):
                sviol(ctx, 'missing', fi, eng, o, 'does not pass the request on to the storage backend', 'not passed on')
            else:
                ctx.ok('missing', fi.qual)


def is_slice(t, lo, hi):
    return t[0] == 'pure' and t[1] == 'slice' and len(t[2]) == 3 and (t[2][0] in lo) and (hi is None or t[2][1] == hi)


START = (NONE, const(0))


def batch_delete(ctx, fi, ci):
    '''delete_multi implementations that hand batches to _delete_multi.'''
    faults = {'_delete_multi': ('builtins.Exception',)}
    eng, outs = ctx.run(fi, NetPolicy(PRIMS + ('_do_request', 'delete_multi'), faults), TraceMonitor(), selfterm=('self', ci.qual))
    keys = ('param', fi.node.args.args[1].arg, fi.qual)
    n = 0
    for o in outs:
        tr = Trace(o)
        bad = None
        pend = None
        direct = [e for i, e in tr.calls('delete_multi')]
        for i, e in enumerate(tr.ev):
            if e.kind == 'call' and e.name == '_delete_multi':
                n += 1
                if pend is not None:
                    bad = 'does not record which keys of a batch have been deleted'
                pend = kwarg(e, 0, 'keys')
                if not (pend[0] == 'pure' and pend[1] == 'slice' and len(pend[2]) == 4 and pend[2][0] == keys and pend[2][1] in START):
                    bad = 'does not delete the first keys of the list'
            elif e.kind == 'setitem' and e.recv == keys:
                if pend is None or not is_slice(e.args[0], START, pend[2][2]) or e.args[1] != pend:
                    bad = 'does not replace a batch by the keys that remain of it'
                pend = None
            elif e.kind in ('delitem',) and e.recv == keys or e.kind == 'call' and e.recv == keys and e.name in ('remove', 'clear', 'pop'):
                bad = 'removes keys from the list of the caller that may still exist'
        if pend is not None:
            bad = 'does not record which keys of a batch have been deleted'
        if bad is None and o.kind == 'return' and not direct:
            fs = list(tr.facts())
            k = [v for a, v in fs if a == ('true', keys) or a[0] == 'lt' and a[1] == const(0) and a[2] == ('pure', 'len', (keys,)) or a[0] ==
                 'eq' and ('pure', 'len', (keys,)) in a[1:]]
            if not k or k[-1] not in (False,) and fs[-1][0][0] != 'eq':
                bad = 'returns although keys are left'
        fl = [e for e in tr.ev if e.kind == 'fault']
        if bad is None and fl and o.kind == 'return':
            bad = 'loses a failure'
        if bad:
            sviol(ctx, 'bulk', fi, eng, o, bad, bad)
        else:
            ctx.ok('bulk', fi.qual)
    return n


def elem_of(t, name, key):
    '''Element of a findall(key) result that the term was derived from.'''
    for x in subterms(t):
        if x[0] == 'elem' and is_res(x[1], 'findall', 'iter', 'iterfind') and key in show(res_args(x[1])[-1]):
            return x
    return None


def impossible(tr):
    '''Path that takes a non-empty list for empty, or the other way round.'''
    size = {}
    known = {}
    for e in tr.ev:
        if e.kind == 'call' and e.name == 'append' and e.recv and e.recv[0] == 'obj':
            size[e.recv] = size.get(e.recv, 0) + 1
        elif e.kind == 'if' and e.recv[0] == 'true':
            t = e.recv[1]
            if t[0] == 'obj' and (size.get(t) and not e.res):
                return True
            if known.setdefault(t, e.res) != e.res and t[0] == 'res':
                return True
        elif e.kind == 'if' and e.recv[0] == 'eq' and const(0) in e.recv[1:]:
            for t in e.recv[1:]:
                if t[0] == 'pure' and t[1] == 'len' and known.setdefault(t[2][0], not e.res) == e.res and t[2][0][0] == 'res':
                    return True
    n = {}
    for e in tr.ev:
        if e.kind == 'iter':
            n[e.node] = n.get(e.node, 0) + 1
            if known.get(e.recv) is False:
                return True
        elif e.kind == 'loopexit':
            if known.get(e.res) and not n.get(e.node):
                return True
            n[e.node] = 0
    return False


def empty(a, v, pred):
    '''Does the fact state that a list (selected by pred) is empty?'''
    if a[0] == 'true':
        return v is False and pred(a[1])
    ln = [x for x in a[1:] if isinstance(x, tuple) and x and x[0] == 'pure' and x[1] == 'len' and pred(x[2][0])]
    if not ln:
        return False
    if a[0] == 'eq':
        return v is True and const(0) in a[1:]
    return a[0] == 'lt' and (v is False and a[1:] == (const(0), ln[0]) or v is True and a[1:] == (ln[0], const(1)))


def request_names_keys(tr, fi, keys):
    '''Problem with the body of the bulk deletion request, or None.'''
    pre = ('attr', ('self', fi.cls.qual), 'prefix')
    its = [j for j, x in enumerate(tr.ev) if x.kind == 'iter' and x.recv == keys]
    rq = [(i, e) for i, e in tr.calls('_do_request')]
    if not rq:
        return None
    for a, b in zip(its, its[1:] + [rq[0][0]]):
        app = [x for x in tr.ev[a:b] if x.kind == 'call' and x.name == 'append' and mention(x.args[0], tr.ev[a].res)]
        if not app:
            return 'does not ask the server to delete every key'
        if not mention(app[0].args[0], pre):
            return 'asks the server to delete other objects'
    return None


def s3_delete_multi(ctx):
    fi = ctx.repo.func(B + 's3c4.AsyncBackend._delete_multi')
    eng, outs = ctx.run(fi, SmallNet(PRIMS + ('_do_request',)), TraceMonitor())
    keys = ('param', fi.node.args.args[1].arg, fi.qual)
    for o in outs:
        tr = Trace(o)
        bad = None
        if impossible(tr):
            continue
        noerr = any(empty(a, v, lambda t: is_res(t, 'findall') and 'Error' in show(res_args(t)[-1])) for a, v in tr.facts())
        codes = []          # verdicts about errors, per iteration
        cleared = False
        seg = None
        for i, e in enumerate(tr.ev):
            if e.kind in ('iter', 'loopexit'):
                seg = i
            if e.kind == 'if' and e.recv[0] == 'eq' and const('NoSuchKey') in e.recv[1:]:
                codes.append(e.res)
            if e.kind == 'delitem' and e.recv == keys or e.kind == 'call' and e.recv == keys and e.name == 'clear':
                cleared = True
                if not noerr and (not codes or not all(codes)):
                    bad = 'forgets keys whose deletion may have failed'
            elif e.kind == 'setitem' and e.recv == keys:
                bad = bad or None
            elif e.kind == 'call' and e.recv == keys and e.name == 'remove':
                d = elem_of(e.args[0], 'findall', 'Deleted')
                er = elem_of(e.args[0], 'findall', 'Error')
                ok = d is not None or er is not None and any(
                    x.kind == 'if' and x.recv[0] == 'eq' and x.res and const('NoSuchKey') in x.recv[1:] and any(
                        mention(y, er) for y in x.recv[1:]) for x in tr.ev[seg or 0:i])
                sl = [x for x in subterms(e.args[0]) if x[0] == 'pure' and x[1] in ('slice', 'removeprefix') or is_res(x, 'removeprefix')]
                if not ok:
                    bad = 'forgets a key whose deletion failed'
                elif not sl or not (is_res(sl[0], 'removeprefix') or sl[0][2][1] == ('pure', 'len', (('attr', ('self', fi.cls.qual), 'prefix'),))):
                    bad = 'does not remove the prefix from the keys reported by the server'
        bad = bad or request_names_keys(tr, fi, keys)
        if o.kind == 'return':
            if not cleared and bad is None:
                bad = 'returns without having removed the deleted keys'
            if codes and not all(codes):
                bad = 'loses a failure'
            if not noerr and not codes:
                bad = 'ignores errors reported by the server'
        if bad:
            sviol(ctx, 'bulk', fi, eng, o, bad, bad)
        else:
            ctx.ok('bulk', fi.qual)


class SmallNet(NetPolicy):
    loop_iters = 1
    max_states = 12000
    max_returns = 4000


def jitem(t, key):
    return any(x[0] == 'item' and x[2] == const(key) or is_res(x, 'get') and len(res_args(x)) > 1 and res_args(x)[1] == const(key)
               for x in subterms(t))


def swift_delete_multi(ctx):
    fi = ctx.repo.func(B + 'swift.AsyncBackend._delete_multi')
    eng, outs = ctx.run(fi, SmallNet(PRIMS + ('_do_request',), {'_do_authentication_expired': (B + 'swift.AuthenticationExpired',)}),
                        TraceMonitor())
    keys = ('param', fi.node.args.args[1].arg, fi.qual)
    n = 0
    for o in outs:
        tr = Trace(o)
        bad = None
        stat = []
        cleared = False
        for i, e in enumerate(tr.ev):
            if e.kind == 'delitem' and e.recv == keys or e.kind == 'call' and e.recv == keys and e.name == 'clear':
                cleared = True
                fs = list(tr.facts(upto=i))
                ok200 = any(v and a[0] == 'eq' and const(200) in a[1:] and mentions_status(a) for a, v in fs)
                only404 = any(v and (a[0] == 'in' and a[2] == ('tuple', const(400), const(404)) or a[0] == 'eq' and (
                    const(400) in a[1:] or const(404) in a[1:])) and mentions_status(a) for a, v in fs)
                noerr = any(a[0] == 'eq' and v and const(0) in a[1:] and any(jitem(x, 'Errors') for x in a[1:]) or a[0] == 'true' and not v and
                            jitem(a[1], 'Errors') or a[0] == 'lt' and (not v and a[1] == const(0) and jitem(a[2], 'Errors') or
                                                                       v and a[2] == const(1) and jitem(a[1], 'Errors')) for a, v in fs)
                some = any(a[0] == 'lt' and (v and a[1] == const(0) and jitem(a[2], 'Number Not Found') or not v and a[2] == const(
                    1) and jitem(a[1], 'Number Not Found')) or a[0] == 'true' and v and jitem(a[1], 'Number Not Found') or a[
                        0] == 'eq' and not v and const(0) in a[1:] and any(jitem(x, 'Number Not Found') for x in a[1:]) for a, v in fs)
                if not (ok200 or only404 and noerr and some):
                    bad = 'forgets keys although the server reported errors'
            elif e.kind == 'setitem' and e.recv == keys:
                fs = list(tr.facts(upto=i))
                done = any(v and a[0] == 'eq' and ('pure', 'len', (keys,)) in a[1:] and any(jitem(x, 'Number Deleted') for x in a[1:])
                           for a, v in fs)
                if not done:
                    bad = 'forgets keys that the server did not process'
            elif e.kind == 'call' and e.recv == keys and e.name in ('remove', 'pop'):
                bad = 'forgets keys although the server does not report which ones were deleted'
        bad = bad or request_names_keys(tr, fi, keys)
        if o.kind == 'return':
            n += 1
            if not cleared:
                bad = 'loses a failure'
        if bad:
            sviol(ctx, 'bulk', fi, eng, o, bad, bad)
        else:
            ctx.ok('bulk', fi.qual)
    if not n:
        ctx.floor('bulk', 10 ** 6)


def mentions_status(a):
    # The status in the answer, the one of the HTTP response says nothing about the deletions.
    return any(is_res(x, '_split_response_status') or jitem(x, 'Response Status')
               for x in subterms(a))


def local_delete_multi(ctx):
    fi = ctx.repo.func(B + 'local.AsyncBackend.delete_multi')
    eng, outs = ctx.run(fi, NetPolicy(PRIMS, {'delete': ('builtins.Exception', 'trio.Cancelled')}), TraceMonitor())
    keys = ('param', fi.node.args.args[1].arg, fi.qual)
    for o in outs:
        tr = Trace(o)
        bad = None
        done = failed = 0
        cur = None
        removed = []
        cut = None
        for i, e in enumerate(tr.ev):
            if e.kind == 'iter':
                cur = e.res
            elif e.kind == 'call' and e.name == 'delete':
                ok = [x for x in tr.ev[i + 1:i + 4] if x.kind in ('ret', 'fault') and x.node == e.node]
                failed = bool(ok) and ok[0].kind == 'fault'
                done += not failed
            elif e.kind == 'call' and e.recv == keys and e.name == 'remove':
                removed.append(e.args[0])
                if failed:
                    bad = 'forgets a key whose deletion failed'
            elif e.kind == 'delitem' and e.recv == keys:
                cut = e.args[0]
        if o.kind == 'return':
            ex = [e for e in tr.ev if e.kind == 'loopexit']
            if not ex:
                bad = 'returns before all keys were processed'
            elif not removed and (cut is None or not is_slice(cut, START, NONE)) and done:
                bad = 'does not remove deleted keys from the list'
            if failed:
                bad = 'loses a failure'
        elif failed and not removed:
            want = [x for x in (('item', cur, const(0)),) if cur is not None]
            if cut is None or not is_slice(cut, START, None) or cut[2][1] not in want:
                bad = 'does not leave exactly the keys that were not deleted'
        if bad:
            sviol(ctx, 'bulk', fi, eng, o, bad, bad)
        else:
            ctx.ok('bulk', fi.qual)


def parallel_delete(ctx):
    q = B + 'common._ParallelDelete'
    fi = ctx.repo.func(q + '.consume')
    eng, outs = ctx.run(fi, NetPolicy(PRIMS, {'delete': ('builtins.Exception', 'trio.Cancelled')}), TraceMonitor())
    for o in outs:
        tr = Trace(o)
        bad = None
        pend = None
        failed = False
        for i, e in enumerate(tr.ev):
            if e.kind == 'iter':
                if pend is not None:
                    bad = 'does not remove a deleted key from the list'
            elif e.kind == 'call' and e.name == 'delete':
                pend = e.args[0]
            elif e.kind == 'fault' and fault_op(tr, i) == 'delete':
                pend, failed = None, True
            elif e.kind == 'call' and e.name == 'remove':
                if e.args[0] != pend or failed:
                    bad = 'removes another key than the one that was deleted'
                pend = None
            elif e.kind == 'call' and is_attr(e.recv or NONE, 'keys') and e.name in ('clear', 'pop'):
                bad = 'removes keys that were not deleted'
        if pend is not None:
            bad = 'does not remove a deleted key from the list'
        if failed and o.kind == 'return':
            bad = 'loses a failure'
        its = [e.res for e in tr.ev if e.kind == 'iter']
        dl = [e.args[0] for i, e in tr.calls('delete')]
        if not failed and o.kind == 'return' and any(x not in dl for x in its):
            bad = 'skips keys'
        if bad:
            sviol(ctx, 'bulk', fi, eng, o, bad, bad)
        else:
            ctx.ok('bulk', fi.qual)
    fi = ctx.repo.func(q + '.produce')
    eng, outs = ctx.run(fi, NetPolicy(PRIMS), TraceMonitor())
    mine = ('attr', ('self', q), 'keys')
    for o in outs:
        v = o.val
        if o.kind == 'return' and not (is_res(v, 'list', 'tuple', 'copy') and mine in res_args(v) or v == (
                'pure', 'slice', (mine, NONE, NONE, NONE)) or v[0] == 'pure' and v[1] in ('list', 'tuple') and mention(v, mine)):
            sviol(ctx, 'bulk', fi, eng, o, 'does not process a copy of the list of keys: ' + show(v), 'produce')
        else:
            ctx.ok('bulk', fi.qual)
    fi = ctx.repo.func(B + 'common.AsyncBackend.delete_multi')
    eng, outs = ctx.run(fi, NetPolicy(PRIMS), TraceMonitor())
    keys = ('param', fi.node.args.args[1].arg, fi.qual)
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        new = [e for i, e in tr.calls('_ParallelDelete')]
        run = [e for i, e in tr.calls('run')]
        empty = tr.val(('true', keys)) is False
        if not empty and not (new and run and (dict(new[0].kw).get('keys') == keys or keys in new[0].args)):
            sviol(ctx, 'bulk', fi, eng, o, 'does not delete the keys of the list', 'not deleted')
        else:
            ctx.ok('bulk', fi.qual)


def list_rules(ctx):
    for fi, ci in own(ctx, 'list', tuple(x for x in BACKENDS if x != 'local')):
        eng, outs = ctx.run(fi, NetPolicy(PRIMS), TraceMonitor(), selfterm=('self', ci.qual))
        me = ('self', ci.qual)
        pre = ('attr', me, 'prefix')
        n = 0
        for o in outs:
            if o.kind != 'return':
                continue
            n += 1
            tr = Trace(o)
            bad = None
            page = None
            elem = None
            for i, e in enumerate(tr.ev):
                if e.kind == 'call' and e.name == '_list_page':
                    a = [kwarg(e, 0, 'prefix'), kwarg(e, 1, 'page_token')]
                    if a[0] is None or set(flat_add(a[0])) != {pre, ('param', fi.node.args.args[1].arg, fi.qual)} and flat_add(a[0]) != [
                            pre, ('param', fi.node.args.args[1].arg, fi.qual)]:
                        bad = 'does not list below the prefix of the storage URL'
                    if page is not None and a[1] != ('item', page, const(1)):
                        bad = 'does not continue where the previous page ended'
                    page = e.res
                elif e.kind == 'iter':
                    if elem is not None:
                        bad = 'skips a key'
                    elem = e.res
                    if e.recv != ('item', page, const(0)):
                        bad = 'does not return the keys of the page'
                elif e.kind == 'yield':
                    y = e.args[0] if e.args else None
                    if elem is None or y != ('pure', 'slice', (elem, ('pure', 'len', (pre,)), NONE, NONE)) and not (
                            is_res(y, 'removeprefix') and res_args(y) == (elem, pre)):
                        bad = 'does not return the key without the prefix of the storage URL'
                    elem = None
            if elem is not None:
                bad = 'skips a key'
            tok = ('item', page, const(1)) if page else None
            if bad is None and (page is None or tr.isnone(tok) is not True):
                bad = 'stops before the last page'
            if bad:
                sviol(ctx, 'listing', fi, eng, o, bad, bad)
            else:
                ctx.ok('listing', fi.qual)
        if not n:
            ctx.floor('listing', 10 ** 6)
    for fi, ci in own(ctx, '_list_page', tuple(x for x in BACKENDS if x != 'local')):
        page_rules(ctx, fi, ci)


def seq_without_append(tr):
    its = [j for j, x in enumerate(tr.ev) if x.kind == 'iter']
    return any(not [1 for x in tr.ev[a:b] if x.kind == 'call' and x.name == 'append'] for a, b in zip(its, its[1:] + [len(tr.ev)]))


def page_rules(ctx, fi, ci):
    pol = SmallNet(tuple(p for p in PRIMS if p != '_list_page') + ('_do_request',))
    pol.loop_iters = 2
    eng, outs = ctx.run(fi, pol, TraceMonitor(), selfterm=('self', ci.qual))
    fam = fi.mod.name.rsplit('.', 1)[-1]
    pp = [a.arg for a in fi.node.args.args]
    prefix, token = ('param', pp[1], fi.qual), ('param', pp[2], fi.qual)
    skips = any(fam == 'swift' and seq_without_append(Trace(o)) for o in outs)
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        bad = None
        rq = [(i, e) for i, e in tr.calls('_do_request')]
        if not rq:
            sviol(ctx, 'listing', fi, eng, o, 'returns without asking the server', 'no request')
            continue
        i, e = rq[-1]
        q = kwarg(e, 99, 'query_string')
        d = {cval(k): v for k, v, _ in dict_items(tr, q, i) if is_const(k)} if q is not None else {}
        tk = tr.val(('true', token), i)
        if tk is None:
            nn = tr.isnone(token, i)
            tk = None if nn is None else not nn
        if d.get('prefix') != prefix:
            bad = 'does not ask for the keys below the prefix'
        elif (tk is None or tk) and not [1 for k in ('marker', 'pageToken') if d.get(k) == token]:
            bad = 'does not ask for the page that follows the previous one'
        v = o.val
        if v[0] != 'tuple' or len(v) != 3:
            bad = bad or 'returns something else than the keys and the position of the next page'
        else:
            names, nxt = v[1], v[2]
            fs = list(tr.facts())
            got = len([x for x in tr.ev if x.kind == 'iter'])
            if is_none_const(nxt):
                if fam == 's3c':
                    last_ = any(v_ and a[0] == 'eq' and const('false') in a[1:] and 'IsTruncated' in repr(a) for a, v_ in fs)
                elif fam == 'gs':
                    last_ = any(v_ and a[0] == 'isnone' and jitem(a[1], 'nextPageToken') for a, v_ in fs) or any(
                        not v_ and a[0] == 'true' and jitem(a[1], 'nextPageToken') for a, v_ in fs)
                else:
                    last_ = any(a[0] == 'isnone' and v_ and ('elem' in repr(a) or is_const(a[1])) for a, v_ in fs) or any(
                        a[0] == 'eq' and not v_ or a[0] == 'lt' for a, v_ in fs if any(mention(x, ('param', pp[3], fi.qual)) for x in a[1:])
                        and not (skips and ('pure', 'len', (names,)) in a[1:])
                        and not any(is_const(x) and isinstance(cval(x), int) and 0 <= cval(x) < got for x in a[1:])
                    ) or any(v_ and a[0] == 'eq' and const(204) in a[1:] for a, v_ in fs) or not [x for x in tr.ev if x.kind == 'iter']
                if not last_:
                    bad = bad or 'stops although more keys may follow'
            elif nxt[0] == 'item' and nxt[1] == names:
                if nxt[2] != const(-1):
                    bad = bad or 'continues at another key than the last one of the page'
            else:
                el = [x for x in subterms(nxt) if x[0] == 'elem']
                it = [x for x in tr.ev if x.kind == 'iter']
                app = [x.args[0] for x in tr.ev if x.kind == 'call' and x.name == 'append' and x.recv == names]
                if el and it and it[-1].res not in el and (not app or app[-1] != nxt):
                    bad = bad or 'continues at another key than the last one of the page'
            # every key of the answer is returned
            its = [j for j, x in enumerate(tr.ev) if x.kind == 'iter']
            if its and names[0] == 'obj':
                for a, b in zip(its, its[1:] + [len(tr.ev)]):
                    seg = tr.ev[a:b]
                    app = [x for x in seg if x.kind == 'call' and x.name == 'append' and x.recv == names]
                    skip = [1 for x in seg if x.kind == 'if' and (x.recv[0] == 'isnone' and x.res or x.recv[0] == 'true' and is_res(
                        x.recv[1], 'endswith') and x.res and 'TEMP' in repr(x.recv) + show(x.recv) or x.recv[0] == 'true' and is_res(
                        x.recv[1], 'endswith') and x.res and any(is_const(y) and 'tmp' in str(cval(y)) for y in res_args(x.recv[1])))]
                    if not app and not skip:
                        bad = bad or 'leaves out keys'
                    elif app and not mention(app[0].args[0], tr.ev[a].res):
                        bad = bad or 'returns other keys than the server'
        if bad:
            sviol(ctx, 'listing', fi, eng, o, bad, bad)
        else:
            ctx.ok('listing', fi.qual)


def is_none_const(t):
    return t == NONE


def walk_errors(ctx, fi, eng, o, tr):
    '''os.walk() leaves out directories that it cannot read, unless it is told otherwise.'''
    for _, e in tr.calls('walk'):
        if not e.qual.startswith('os.'):
            continue
        cb = dict(e.kw).get('onerror') or (e.args[2] if len(e.args) > 2 else NONE)
        f = eng.closures.get(cb[1]) if cb[0] == 'closure' else None
        if f is None and cb[0] in ('global', 'bound', 'func'):
            f = ctx.repo.func(cb[1], optional=True) if isinstance(cb[1], str) else None
        if f is None:
            if cb == NONE:
                sviol(ctx, 'listing', fi, eng, o, 'leaves out directories that cannot be read', 'walk')
            continue
        e2, outs = ctx.run(f, SmallNet(PRIMS), TraceMonitor())
        for x in outs:
            gone = any(a[0] == 'isinst' and v is True and 'NotFound' in repr(a[2]) for a, v in Trace(x).facts())
            gone = gone or any(v is True and a[0] == 'eq' and 'errno' in repr(a) for a, v in Trace(x).facts())
            if x.kind != 'raise' and not gone:
                sviol(ctx, 'listing', fi, e2, x, 'leaves out directories that cannot be read', 'walk')
            else:
                ctx.ok('listing', fi.qual)


def local_list(ctx):
    fi = ctx.repo.func(B + 'local.AsyncBackend.list')
    pol = SmallNet(PRIMS + ('_key_to_path',))
    eng, outs = ctx.run(fi, pol, TraceMonitor())
    prefix = ('param', fi.node.args.args[1].arg, fi.qual)
    n = 0
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        its = [j for j, x in enumerate(tr.ev) if x.kind == 'iter']
        bad = None
        for a, b in zip(its, its[1:] + [len(tr.ev)]):
            seg = tr.ev[a:b]
            e = tr.ev[a]
            if e.recv and e.recv[0] == 'item' and e.recv[2] == const(2):        # the files of a directory
                n += 1
                y = [x for x in seg if x.kind == 'yield']
                tmp = [x.res for x in seg if x.kind == 'if' and x.recv == ('in', const('#'), e.res)]
                nopre = tr.val(('true', prefix), a) is False or any(x.kind == 'if' and x.recv == ('true', prefix) and x.res is False for x in seg)
                hit = [x.res for x in seg if x.kind == 'if' and x.recv[0] == 'true' and is_res(x.recv[1], 'startswith') and res_args(
                    x.recv[1])[1:] == (prefix,) and is_res(res_args(x.recv[1])[0], 'unescape')]
                if y:
                    if not tmp or tmp[-1] is not False:
                        bad = 'lists temporary files'
                    elif not (is_res(y[-1].args[0], 'unescape') and e.res in res_args(y[-1].args[0])):
                        bad = 'does not list the original key'
                    elif not nopre and not (hit and hit[-1]):
                        bad = 'lists keys with another prefix'
                elif (not tmp or tmp[-1] is False) and (nopre or not hit or hit[-1]):
                    bad = 'leaves out keys'
            elif e.recv and e.recv[0] == 'item' and e.recv[2] == const(1):      # sub-directories
                app = [x for x in seg if x.kind == 'call' and x.name == 'append']
                st = [x for x in seg if x.kind == 'if' and x.recv[0] == 'true' and is_res(x.recv[1], 'startswith')]
                if not app:
                    ok = False
                    for x in st:
                        r = res_args(x.recv[1])
                        if x.res is False and len(r) == 2 and r[1] == ('pure', 'slice', (prefix, NONE, ('pure', 'len', (r[0],)), NONE)):
                            ok = True
                        if x.res is False and len(r) == 2 and r[0] == prefix:
                            # the other direction: the directory must be shorter than the prefix
                            ok = ok or any(y.kind == 'if' and y.recv[0] == 'true' and is_res(y.recv[1], 'startswith') and y is not x for y in seg)
                    if not ok:
                        bad = 'does not look into all directories that may contain matching keys'
        if bad:
            sviol(ctx, 'listing', fi, eng, o, bad, bad)
        else:
            ctx.ok('listing', fi.qual)
        walk_errors(ctx, fi, eng, o, tr)
    if not n:
        ctx.floor('listing', 10 ** 6)
    fi = ctx.repo.func('s3ql.backends.comprenc.AsyncComprencBackend.list')
    eng, outs = ctx.run(fi, SmallNet(PRIMS), TraceMonitor())
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        it = [e for e in tr.ev if e.kind == 'iter']
        ys = [e.args[0] for e in tr.ev if e.kind == 'yield']
        if [e.res for e in it] != ys or any(not is_res(e.recv, 'list') for e in it):
            sviol(ctx, 'listing', fi, eng, o, 'does not pass on the keys of the storage backend', 'keys')
        else:
            ctx.ok('listing', fi.qual)


@check('S07', explanation='''The implementations of each operation in all storage backends are compared with the contract: on every path on
which the server reports a missing object, lookups and reads end with NoSuchObject and deletions succeed, while every other error is passed on;
the list of keys given to a bulk deletion is changed only by removing keys whose deletion the server confirmed; listings ask for every page,
return every key of it without the storage prefix, and never return temporary files.''')
def s07(ctx):
    ctx.rule('missing', 'a missing object is reported as such, and nothing else is')
    ctx.rule('bulk', 'bulk deletion leaves exactly the keys that may still exist, and reports failures')
    ctx.rule('listing', 'listings are complete and return keys without the storage prefix')
    missing_rules(ctx)
    for fi, ci in own(ctx, 'delete_multi', ('s3c', 's3c4', 's3', 'b2ng', 'swift', 'swiftks', 'rackspace', 'gs')):
        if not batch_delete(ctx, fi, ci):
            ctx.violate('bulk', fi.qual, '%s does not delete anything' % fi.short, fi.loc())
    s3_delete_multi(ctx)
    swift_delete_multi(ctx)
    local_delete_multi(ctx)
    parallel_delete(ctx)
    list_rules(ctx)
    local_list(ctx)
    for r in ctx.rules:
        ctx.floor(r)

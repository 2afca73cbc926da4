'''S01 - S05: encryption, compression and integrity of stored objects.'''

from __future__ import annotations

import ast
from collections import namedtuple

from sa.baseline import known_functions
from sa.interp import FALSE, NONE, TRUE, Monitor, cval, const, is_const, show, subterms
from sa.lib import StdPolicy, all_funcs_in, cls_name, is_attr, last
from sa.repo import AnalysisError, walk_own

from . import check

CP = 's3ql.backends.comprenc'
CB = CP + '.AsyncComprencBackend'
BC = 's3ql.backends.common'
CORRUPT = BC + '.CorruptedObjectError'

Ev = namedtuple('Ev', 'kind name qual recv args kw res node')


class TraceMonitor(Monitor):
    '''Complete trace of calls, item accesses, loops and decisions.'''

    skip = ('debug', 'info', 'warning', 'error')

    def init(self):
        return ()

    def step(self, auto, ev, st, eng):
        if ev.name in self.skip and ev.kind in ('call', 'ret'):
            return auto
        if ev.kind == 'call' and not ev.qual and not ev.name:
            return auto
        res = ev.res
        if ev.kind == 'fault':
            res = ev.res[1] if ev.res else ev.qual
        return auto + (Ev(ev.kind, ev.name, ev.qual, ev.recv, tuple(ev.args), tuple(sorted(ev.kw.items())), res, id(ev.node)),)

    def branch(self, auto, atom, val, st, eng):
        return auto + (Ev('if', '', '', atom, (), (), val, 0),)


class Trace:
    def __init__(self, o):
        self.o = o
        self.ev = o.st.auto

    def calls(self, *names, upto=None, kind='call'):
        ev = self.ev if upto is None else self.ev[:upto]
        return [(i, e) for i, e in enumerate(ev) if e.kind == kind and e.name in names]

    def facts(self, upto=None):
        for e in (self.ev if upto is None else self.ev[:upto]):
            if e.kind == 'if':
                yield e.recv, e.res

    def dec(self, pred, upto=None):
        return [v for a, v in self.facts(upto) if pred(a)]

    def val(self, atom, upto=None):
        r = None
        for a, v in self.facts(upto):
            if a == atom:
                r = v
        return r

    def isnone(self, t, upto=None):
        return self.val(('isnone', t), upto)

    def eq(self, a, b, upto=None):
        for x, v in self.facts(upto):
            if x[0] in ('eq', 'is') and (x[1:] == (a, b) or x[1:] == (b, a)):
                return v
        return None


class LocalPolicy(StdPolicy):
    '''Inline helpers that a change introduced, nothing else.'''

    inline_modules = frozenset()
    max_states = 6000
    max_returns = 400
    loop_iters = 2
    await_raises = False
    os_raises = False
    norow = False

    def inline(self, fi, eng):
        return fi.qual not in known_functions()

    def raises(self, ev, eng):
        return ()


def sviol(ctx, rule, fi, eng, o, msg, what):
    ctx.violate(rule, '%s: %s' % (fi.qual, what), '%s: %s' % (fi.short, msg), fi.loc(), eng.describe_trace(o.st) if o is not None else ())


def dict_items(tr, t, upto=None):
    '''Contents of a dictionary built on this path: [(key, value, position)], in order.'''
    out = []
    st = tr.o.st
    if t[0] == 'obj':
        init = st.heap.get((t, '$init'))
        if init:
            out += [(kv[1], kv[2], -1) for kv in init[1:] if isinstance(kv, tuple) and len(kv) == 3]
    for i, e in enumerate(tr.ev if upto is None else tr.ev[:upto]):
        if e.kind == 'call' and e.res == t and e.name == 'dict':
            out += [(const(k), v, i) for k, v in e.kw]
        elif e.kind == 'setitem' and e.recv == t:
            out.append((e.args[0], e.args[1] if len(e.args) > 1 else e.res, i))
        elif e.kind == 'call' and e.recv == t and e.name == 'update':
            out += [(const(k), v, i) for k, v in e.kw]
            for a in e.args:
                if a[0] == 'obj':
                    out += [(k, v, i) for k, v, _ in dict_items(tr, a, i)]
                else:
                    out.append((('unk', 'update'), a, i))
    return out


def kwarg(e, i, name):
    if len(e.args) > i:
        return e.args[i]
    return dict(e.kw).get(name)


def item(t, key):
    return ('item', t, const(key))


def flat_add(t):
    '''Operands of a concatenation, in order where the engine preserves it.'''
    if isinstance(t, tuple) and t and t[0] == 'pure' and t[1] == 'Add':
        out = []
        for x in t[2]:
            out += flat_add(x)
        return out
    return [t]


def mention(t, u):
    return any(x == u for x in subterms(t))


def is_res(t, *names):
    return isinstance(t, tuple) and t and t[0] == 'res' and last(t[1]) in names


def res_args(t):
    return t[3] if isinstance(t, tuple) and t and t[0] in ('res', 'new') and len(t) > 3 else ()


def exc_name(o):
    return o.val[1] if o.kind == 'raise' and o.val and o.val[0] == 'exc' else None


def sha_arg(t):
    '''Argument of the hash that a key term is derived with.'''
    if is_res(t, 'sha256'):
        a = res_args(t)
        return a[-1] if a else None
    return None


def mget(t, m, key):
    '''Is the term the entry *key* of mapping *m*?'''
    if t == item(m, key):
        return True
    return is_res(t, 'get') and len(res_args(t)) >= 2 and res_args(t)[0] == m and res_args(t)[1] == const(key)


def is_none_const(t):
    return t == NONE


def key_parts(t):
    '''Operands of the byte string a key was derived from, or None.'''
    a = sha_arg(t)
    return None if a is None else flat_add(a)


def same_parts(p, *want):
    if p is None:
        return False
    p = list(p)
    for w in want:
        for x in list(p):
            if w(x):
                p.remove(x)
                break
        else:
            return False
    return not p


def is_pass(t):
    return is_attr(t, 'passphrase')


def is_meta_tag(t):
    return is_const(t) and isinstance(t[1], bytes) and t[1]


# -------------------------------------------------------------------------------------------
# S01


def verify_meta_rules(ctx):
    fi = ctx.repo.func(CB + '._verify_meta')
    ps = fi.params()
    key, md = (('param', ps[1], fi.qual), ('param', ps[2], fi.qual))
    eng, outs = ctx.run(fi, LocalPolicy(), TraceMonitor())
    refused = 0
    for o in outs:
        tr = Trace(o)
        for a, v in tr.facts():
            if a[0] in ('eq', 'is') and any(is_res(x, 'checksum_basic_mapping', 'digest', 'hexdigest') for x in a[1:]):
                sviol(ctx, 'constant-time', fi, eng, o, 'an authentication code is compared with ==, which takes a time that depends on '
                      'the position of the first difference', 'compare')
        nopass = None
        for a, v in tr.facts():
            if a[0] == 'isnone' and is_pass(a[1]):
                nopass = v
            elif a == ('true', ('attr', ('self', CB), 'passphrase')) and v:
                nopass = False
        plain = None
        for a, v in tr.facts():
            if a[0] == 'eq' and const('None') in a[1:] and any(mget(x, md, 'encryption') for x in a[1:]):
                plain = v
        if exc_name(o) and exc_name(o).endswith('ObjectNotEncrypted') and nopass is False and plain is True:
            refused += 1
        if o.kind != 'return':
            continue
        if nopass is True:
            ctx.ok('verified')
            continue
        if plain is True:
            sviol(ctx, 'plain-refused', fi, eng, o, 'accepts an object that is not encrypted although the file system is', 'plain')
            continue
        # the code was compared, under the right key, and the result decided the path
        mac = None
        for a, v in tr.facts():
            if a[0] == 'true' and is_res(a[1], 'compare_digest') and v is True:
                x = [y for y in res_args(a[1]) if isinstance(y, tuple)]
                sig = [y for y in x if mget(y, md, 'signature')]
                chk = [y for y in x if is_res(y, 'checksum_basic_mapping')]
                if sig and chk:
                    ca = res_args(chk[0])
                    kt = ca[1] if len(ca) > 1 else None
                    for e in tr.ev:
                        if e.kind == 'call' and e.res == chk[0]:
                            kt = kwarg(e, 1, 'key')
                            if kwarg(e, 0, 'metadata') != md:
                                kt = None
                    if kt is not None and same_parts(key_parts(kt), is_pass, lambda t: mget(t, md, 'nonce'), is_meta_tag):
                        mac = kt
        if mac is None:
            sviol(ctx, 'verified', fi, eng, o, 'returns metadata of an encrypted object without having compared its signature with the '
                  'code computed over all of the metadata with the key derived from the passphrase and the nonce', 'signature')
            continue
        nm = [v for a, v in tr.facts() if a[0] in ('eq', 'is') and key in a[1:] and any(mget(x, md, 'object_id') for x in a[1:])]
        nm += [v for a, v in tr.facts() if a[0] == 'true' and is_res(a[1], 'compare_digest') and mention(a[1], key) and
               any(mget(x, md, 'object_id') for x in subterms(a[1]))]
        if not nm or nm[-1] is not True:
            sviol(ctx, 'same-name', fi, eng, o, 'accepts an object that was stored under another name than the requested one', 'name')
            continue
        ctx.ok('same-name')
        v = o.val
        if not (v and v[0] == 'tuple' and len(v) == 3 and mget(v[1], md, 'nonce')):
            sviol(ctx, 'verified', fi, eng, o, 'does not return the nonce that was verified', 'nonce')
            continue
        src = v[2]
        if not (is_res(src, 'thaw_basic_mapping') and any(is_res(x, 'aes_decryptor') and mac in res_args(x) for x in subterms(src))
                and any(mget(x, md, 'data') for x in subterms(src))):
            sviol(ctx, 'verified', fi, eng, o, 'returns metadata other than what the verified bytes decrypt to', 'content')
            continue
        ctx.ok('verified', '_verify_meta')
    if refused:
        ctx.ok('plain-refused', '_verify_meta', refused)
    ctx.floor('plain-refused')


SINKS = {'decrypt_fh', 'copyfh', '_decompress_sync', 'write', 'decompress_fh', 'writelines'}


def reader_rules(ctx):
    fi = ctx.repo.func(CB + '.lookup')
    for fn, prim in (('lookup', 'lookup'), ('readinto_fh', 'readinto_fh')):
        fi = ctx.repo.func(CB + '.' + fn)
        ps = fi.params()
        key = ('param', ps[1], fi.qual)
        fh = ('param', ps[2], fi.qual) if fn == 'readinto_fh' else None
        eng, outs = ctx.run(fi, LocalPolicy(), TraceMonitor())
        for o in outs:
            tr = Trace(o)
            if any(a[0] == 'isnone' and is_res(a[1], 'sha256') and v for a, v in tr.facts()):
                continue                # a digest is never None
            vm = [(i, e) for i, e in tr.calls('_verify_meta')]
            for i, e in vm:
                raw = kwarg(e, 1, 'metadata')
                if kwarg(e, 0, 'key') != key or not is_res(raw, prim):
                    sviol(ctx, 'only-verified', fi, eng, o, 'verifies something other than what the backend returned for the requested '
                          'object', 'arguments')
                else:
                    a = res_args(raw)
                    if key not in a:
                        sviol(ctx, 'only-verified', fi, eng, o, 'requests another object than it verifies', 'request')
            if fh is not None:
                for i, e in enumerate(tr.ev):
                    hit = e.kind == 'call' and (fh in e.args or fh in [v for k, v in e.kw] or (e.recv == fh and e.name in (
                        'write', 'writelines'))) and e.name not in ('tell', 'seek', 'isinstance')
                    if not hit:
                        continue
                    if not vm or vm[0][0] > i:
                        sviol(ctx, 'only-verified', fi, eng, o, 'writes data to the destination before the metadata of the object was '
                              'verified (%s)' % e.name, 'early')
                        continue
                    nonce = ('item', vm[0][1].res, const(0))
                    dk = [x for x in list(e.args) + [v for k, v in e.kw] if is_res(x, 'sha256')]
                    if e.name in ('decrypt_fh', '_decompress_sync') and dk:
                        if not same_parts(key_parts(dk[0]), is_pass, lambda t: t == nonce or mget(t, kwarg(vm[0][1], 1, 'metadata'), 'nonce')):
                            sviol(ctx, 'data-key', fi, eng, o, 'decrypts the data under a key that is not derived from the passphrase and '
                                  'the verified nonce alone', 'key')
                        else:
                            ctx.ok('data-key', '%s -> %s' % (fn, e.name))
                        continue
                    # data is passed on unverified: only for objects without a nonce
                    free = any((a == ('true', nonce) and v is False) or (a == ('isnone', nonce) and v is True) or
                               (a[0] == 'isnone' and is_pass(a[1]) and v is True) for a, v in tr.facts())
                    if not free:
                        sviol(ctx, 'data-key', fi, eng, o, 'hands out the data of an encrypted object without authenticating it (%s)' %
                              e.name, e.name)
                    else:
                        ctx.ok('data-key', '%s -> %s (not encrypted)' % (fn, e.name))
            if o.kind == 'return':
                want = ('item', vm[0][1].res, const(1)) if vm else None
                v = o.val
                good = want is not None and (v == want or (v and v[0] in ('obj', 'res', 'pure') and mention(v, want)))
                if v and v[0] == 'obj' and want is not None and not good:
                    good = bool(tr.o.st.heap.get((v, '$init'))) and mention(tr.o.st.heap.get((v, '$init')), want)
                if not good:
                    sviol(ctx, 'only-verified', fi, eng, o, 'returns metadata that was not verified', 'result')
                else:
                    ctx.ok('only-verified', fn)


def decrypt_rules(ctx):
    fi = ctx.repo.func(CP + '.decrypt_fh')
    ps = fi.params()
    ifh, ofh, key = (('param', p, fi.qual) for p in ps[:3])
    eng, outs = ctx.run(fi, LocalPolicy(), TraceMonitor())
    for o in outs:
        tr = Trace(o)
        for a, v in tr.facts():
            if a[0] in ('eq', 'is') and any(is_res(x, 'digest', 'hexdigest') for x in a[1:]):
                sviol(ctx, 'constant-time', fi, eng, o, 'the authentication code of the data is compared with ==', 'compare')
        if o.kind != 'return':
            continue
        macs = [e for i, e in tr.calls('new') if e.qual == 'hmac.new']
        macs = [e for e in macs if kwarg(e, 0, 'key') == key and 'sha256' in show(kwarg(e, 2, 'digestmod') or NONE)]
        cips = [e.res for i, e in tr.calls('aes_decryptor') if kwarg(e, 0, 'key') == key]
        if not macs or not cips:
            sviol(ctx, 'data-authenticated', fi, eng, o, 'accepts data without computing its authentication code under the given key', 'mac')
            continue
        mac, cip = macs[0].res, cips[0]
        # the decision
        cmp_ok = None
        for i, e in enumerate(tr.ev):
            if e.kind == 'if' and e.recv[0] == 'true' and is_res(e.recv[1], 'compare_digest') and e.res is True:
                x = [y for y in res_args(e.recv[1]) if isinstance(y, tuple)]
                dg = [y for y in x if is_res(y, 'digest') and mac in res_args(y)]
                st = [y for y in x if is_res(y, 'update') and cip in res_args(y)]
                if dg and st:
                    cmp_ok = (i, st[0])
        if cmp_ok is None:
            sviol(ctx, 'data-authenticated', fi, eng, o, 'accepts data without comparing its authentication code with the stored one',
                  'compare')
            continue
        stored = [x for x in res_args(cmp_ok[1]) if is_res(x, 'read')]
        ln = res_args(stored[0])[-1] if stored else None
        if ln != const(32):
            sviol(ctx, 'data-authenticated', fi, eng, o, 'compares a stored authentication code of another length than the complete code',
                  'length')
            continue
        # every read before the code is decrypted and authenticated before the next read
        reads = [i for i, e in tr.calls('read') if e.recv == ifh]
        tail = None
        bad = None
        covered = 0
        for n, i in enumerate(reads):
            e = tr.ev[i]
            end = reads[n + 1] if n + 1 < len(reads) else len(tr.ev)
            seg = tr.ev[i:end]
            dec = [x.res for x in seg if x.kind == 'call' and x.name == 'update' and x.recv == cip and e.res in x.args]
            fed = [x for x in seg if x.kind == 'call' and x.name == 'update' and x.recv == mac and any(d in x.args for d in dec)]
            use = [x for x in seg if x.kind == 'call' and x.name in ('write', 'unpack') and any(d in x.args for d in dec)]
            direct = [x for x in seg if x.kind == 'call' and x.name == 'write' and e.res in x.args]
            if direct:
                bad = 'writes data that was not decrypted'
            if use and not fed:
                bad = 'uses bytes (%s) that are not covered by the authentication code' % use[0].name
            covered += len(fed)
            if dec and not fed and dec[0] == cmp_ok[1] and not use:
                tail = n
        if bad:
            sviol(ctx, 'data-authenticated', fi, eng, o, bad, 'coverage')
            continue
        rest = [tr.ev[i].res for n, i in enumerate(reads) if tail is not None and n > tail]
        if not rest or not any(v is False for r in rest for v in tr.dec(lambda a: a == ('true', r))) and not any(
                v is True for r in rest for v in tr.dec(lambda a: a[0] == 'eq' and r in a[1:] and const(b'') in a[1:])):
            sviol(ctx, 'complete', fi, eng, o, 'does not check that nothing follows the authentication code', 'trailing')
            continue
        # the stream ended with the terminator
        up = [i for i, e in tr.calls('unpack')]
        endok = False
        if up:
            for e in tr.ev[up[-1]:]:
                if e.kind == 'if' and any(is_res(x, 'unpack') for x in subterms(e.recv)):
                    if e.recv[0] == 'eq' and const(0) in e.recv[1:] and e.res is True or e.recv[0] == 'true' and e.res is False:
                        endok = True
        if not endok:
            sviol(ctx, 'complete', fi, eng, o, 'accepts a stream whose terminating packet was not read', 'terminator')
            continue
        ctx.ok('data-authenticated', 'decrypt_fh', covered)
        ctx.ok('complete', 'decrypt_fh')


def decompress_gate(ctx):
    '''_decompress_sync decrypts whenever there is a key.'''
    fi = ctx.repo.func(CB + '._decompress_sync')
    ps = fi.params()
    dk = ('param', ps[2], fi.qual)
    ifh = ('param', ps[3], fi.qual)
    eng, outs = ctx.run(fi, LocalPolicy(), TraceMonitor())
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        none = tr.isnone(dk)
        if none is None:
            t = tr.val(('true', dk))
            none = None if t is None else not t
        dec = [e for i, e in tr.calls('decrypt_fh') if dk in e.args or dk in dict(e.kw).values()]
        out = [e for i, e in tr.calls('decompress_fh')]
        if none is True:
            continue
        if not dec or any(kwarg(e, 0, 'ifh') == ifh for e in out) or not out or kwarg(out[0], 0, 'ifh') != kwarg(dec[0], 1, 'ofh'):
            sviol(ctx, 'data-key', fi, eng, o, 'decompresses the data of an encrypted object without decrypting and authenticating it first',
                  'decrypt')
        else:
            ctx.ok('data-key', '_decompress_sync')


@check('S01', explanation='''Path analysis of the reader of stored objects: on every path on which metadata of an object is returned on an
encrypted file system, the signature was compared in constant time with the code computed over the whole mapping under the key derived from
passphrase and nonce, the stored name equals the requested one and the result is what the verified bytes decrypt to; every path on which
data reaches the caller goes through the authenticating decryption under the key of the verified nonce; the decryption returns only after
comparing the code over every decrypted byte, reading the terminator and finding nothing behind it.''')
def s01(ctx):
    ctx.rule('verified', 'metadata of an encrypted object is returned only after its signature was verified')
    ctx.rule('plain-refused', 'an object that is not encrypted is refused on an encrypted file system')
    ctx.rule('same-name', 'the name an object was stored under is compared with the requested one')
    ctx.rule('constant-time', 'authentication codes are compared with compare_digest')
    ctx.rule('only-verified', 'the readers return and use only verified metadata')
    ctx.rule('data-key', 'data reaches the caller only through the authenticating decryption under the right key')
    ctx.rule('data-authenticated', 'the decryption accepts data only if the code over every byte matches')
    ctx.rule('complete', 'the decryption accepts only streams with a terminator and nothing behind the code')
    verify_meta_rules(ctx)
    reader_rules(ctx)
    decrypt_rules(ctx)
    decompress_gate(ctx)
    ctx.ok('constant-time', 'comprenc')
    for r in ('verified', 'same-name', 'only-verified', 'data-key', 'data-authenticated', 'complete'):
        ctx.floor(r)


# -------------------------------------------------------------------------------------------
# S02

COVERED = ('format_version', 'compression', 'encryption', 'nonce', 'data', 'object_id')
FRESH = {'time.time', 'time.time_ns', 'os.urandom', 'secrets.token_bytes', 'uuid.uuid4'}


def writer_rules(ctx):
    fi = ctx.repo.func(CB + '._compress_sync')
    ps = fi.params()
    key, fh, mdp = (('param', p, fi.qual) for p in (ps[1], ps[2], ps[4]))
    eng, outs = ctx.run(fi, LocalPolicy(), TraceMonitor())
    n = 0
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        sends = [(i, e) for i, e in tr.calls('write_fh', 'store') if is_attr(e.recv, 'backend')]
        if not sends:
            sviol(ctx, 'all-encrypted', fi, eng, o, 'does not hand the object to the storage backend', 'send')
            continue
        si, send = sends[-1]
        nopass = None
        for a, v in tr.facts():
            if a[0] == 'isnone' and is_pass(a[1]):
                nopass = v
            elif a[0] == 'true' and is_pass(a[1]) and v:
                nopass = False
        sent_meta = [x for x in list(send.args) + [v for k, v in send.kw] if x[0] == 'obj' or is_res(x, 'dict') or x == mdp or
                     x[0] == 'new' and last(x[1]) == 'dict']
        if not sent_meta or kwarg(send, 0, 'key') != key:
            sviol(ctx, 'all-encrypted', fi, eng, o, 'stores the object under another name or without metadata', 'send-args')
            continue
        md = sent_meta[-1]
        content = dict_items(tr, md, si)
        vals = {}
        for k, v, i in content:
            if is_const(k):
                vals.setdefault(cval(k), []).append((v, i))
        if nopass is True:
            if [v for v, i in vals.get('encryption', [])][-1:] != [const('None')]:
                sviol(ctx, 'all-encrypted', fi, eng, o, 'does not mark an unencrypted object as such', 'mark')
            else:
                ctx.ok('all-encrypted', '_compress_sync (no passphrase)')
            continue
        n += 1
        body = kwarg(send, 1, 'fh')
        enc = [e for i, e in tr.calls('encrypt_fh', upto=si) if kwarg(e, 1, 'ofh') == body]
        if not enc:
            sviol(ctx, 'all-encrypted', fi, eng, o, 'stores data that did not pass through the encryption although there is a passphrase',
                  'plain data')
            continue
        if kwarg(enc[-1], 0, 'ifh') == body:
            sviol(ctx, 'all-encrypted', fi, eng, o, 'encrypts a file into itself', 'self')
            continue
        data_key = kwarg(enc[-1], 2, 'key')
        nonce = vals['nonce'][-1][0] if 'nonce' in vals else None
        if nonce is None:
            sviol(ctx, 'covers', fi, eng, o, 'does not store the nonce', 'nonce')
            continue
        # freshness
        calls = [e for e in tr.ev if e.kind == 'call' and e.qual in FRESH and mention(nonce, e.res)]
        rnd = [e for e in calls if not e.qual.startswith('time.')]
        if not calls or not rnd and not mention(nonce, key):
            sviol(ctx, 'fresh-nonce', fi, eng, o, 'derives the keys from a nonce that another object can have too (it must contain the '
                  'current time and the name of the object, or random bytes)', 'nonce')
            continue
        narrow = [x for x in subterms(nonce) if isinstance(x, tuple) and x and (x[0] == 'pure' and x[1] in (
            'slice', 'int', 'floordiv', 'FloorDiv', 'Mod', 'round') or is_res(x, 'round', 'int'))]
        packs = [x for x in subterms(nonce) if is_res(x, 'pack')]
        if not rnd and (narrow or any(res_args(x) and is_const(res_args(x)[0]) and str(cval(res_args(x)[0])).strip("<>=!@") not in (
                'd', 'Q', 'q') for x in packs)):
            sviol(ctx, 'fresh-nonce', fi, eng, o, 'reduces the resolution of the time in the nonce, so that two versions of an object can '
                  'share their keys', 'resolution')
            continue
        ctx.ok('fresh-nonce', '_compress_sync')
        # keys
        sig = vals.get('signature')
        chk = [(i, e) for i, e in tr.calls('checksum_basic_mapping', upto=si) if sig and e.res == sig[-1][0]]
        if not chk:
            sviol(ctx, 'covers', fi, eng, o, 'does not store a signature computed over the metadata', 'signature')
            continue
        meta_key = kwarg(chk[-1][1], 1, 'key')
        nparts = flat_add(nonce)

        def shape(t, extra):
            p = key_parts(t)
            if p is None:
                return False
            for x in nparts:
                if x not in p:
                    return False
                p.remove(x)
            return same_parts(p, is_pass, *extra)

        if not shape(data_key, ()) or meta_key is None or not shape(meta_key, (is_meta_tag,)):
            sviol(ctx, 'keys', fi, eng, o, 'derives the data or metadata key in another way than the reader (digest of passphrase, nonce '
                  'and, for the metadata only, a constant tag)', 'derivation')
            continue
        ctx.samples.append('data key: %s; metadata key: %s' % (show(sha_arg(data_key)), show(sha_arg(meta_key))))
        tag = [x for x in key_parts(meta_key) if is_meta_tag(x)]
        ctx.meta_tags.add(cval(tag[0]))
        ctx.ok('keys', '_compress_sync')
        # coverage
        ci = chk[-1][0]
        if kwarg(chk[-1][1], 0, 'metadata') != md:
            sviol(ctx, 'covers', fi, eng, o, 'computes the signature over another mapping than the one that is stored', 'mapping')
            continue
        before = {cval(k) for k, v, i in content if is_const(k) and i < ci}
        after = [show(k) for k, v, i in content if i > ci and k != const('signature')]
        missing = [k for k in COVERED if k not in before]
        if missing or after:
            sviol(ctx, 'covers', fi, eng, o, 'computes the signature before the metadata is complete (%s)' %
                  ', '.join(missing + after), 'late ' + ', '.join(missing + after))
            continue
        data = vals['data'][-1][0]
        if not (any(is_res(x, 'aes_encryptor') and meta_key in res_args(x) for x in subterms(data)) and
                any(is_res(x, 'freeze_basic_mapping') for x in subterms(data))) or vals['object_id'][-1][0] != key:
            sviol(ctx, 'covers', fi, eng, o, 'stores metadata in the clear or under another name', 'content')
            continue
        if vals['encryption'][-1][0] == const('None') or not is_const(vals['encryption'][-1][0]):
            sviol(ctx, 'covers', fi, eng, o, 'marks an encrypted object as plain', 'mark')
            continue
        ctx.ok('covers', '_compress_sync')
        ctx.ok('all-encrypted', '_compress_sync')
    if not n:
        ctx.violate('all-encrypted', 'missing', 'no path of the writer encrypts', fi.loc())


def reader_keys(ctx):
    '''The reader derives the keys in the same way.'''
    fi = ctx.repo.func(CB + '._verify_meta')
    ps = fi.params()
    md = ('param', ps[2], fi.qual)
    eng, outs = ctx.run(fi, LocalPolicy(), TraceMonitor())
    seen = False
    for o in outs:
        for e in o.st.auto:
            if e.kind == 'call' and e.name == 'checksum_basic_mapping':
                p = key_parts(kwarg(e, 1, 'key') or NONE)
                if not same_parts(p, is_pass, lambda t: mget(t, md, 'nonce'), is_meta_tag):
                    sviol(ctx, 'keys', fi, eng, o, 'derives the metadata key in another way than the writer', 'derivation')
                elif {cval(x) for x in p if is_meta_tag(x)} != ctx.meta_tags:
                    sviol(ctx, 'keys', fi, eng, o, 'uses another tag for the metadata key than the writer', 'tag')
                else:
                    seen = True
    if seen:
        ctx.ok('keys', '_verify_meta')


def checksum_rules(ctx):
    fi = ctx.repo.func(BC + '.checksum_basic_mapping')
    ps = fi.params()
    md, key = (('param', p, fi.qual) for p in ps[:2])

    class P(LocalPolicy):
        max_states = 20000
        max_returns = 3000

    eng, outs = ctx.run(fi, P(), TraceMonitor())
    tags = {}
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        none = tr.isnone(key)
        if none is None:
            t = tr.val(('true', key))
            none = None if t is None else not t
        if none is True:
            continue
        macs = [e for i, e in tr.calls('new') if e.qual == 'hmac.new' and kwarg(e, 0, 'key') == key and 'sha256' in show(
            kwarg(e, 2, 'digestmod') or NONE)]
        if not macs or not is_res(o.val, 'digest') or macs[0].res not in res_args(o.val):
            sviol(ctx, 'mac', fi, eng, o, 'does not return the complete authentication code computed with the given key', 'mac')
            continue
        mac = macs[0].res
        its = [i for i, e in enumerate(tr.ev) if e.kind == 'iter'] + [len(tr.ev)]
        exits = [i for i, e in enumerate(tr.ev) if e.kind == 'loopexit']
        if not exits:
            sviol(ctx, 'mac', fi, eng, o, 'leaves out metadata that follows some entry', 'break')
            continue
        if not any(is_res(x, 'keys', 'items') or x == md for x in subterms(tr.ev[its[0]].recv if len(its) > 1 else md)):
            pass
        for a, b in zip(its, its[1:]):
            elem = tr.ev[a].res
            # skipped entries
            seg = tr.ev[a:b]
            skip = any(e.kind == 'if' and e.recv[0] in ('eq', 'is') and const('signature') in e.recv[1:] and e.res is True for e in seg)
            if skip:
                continue
            upd = [x for e in seg if e.kind == 'call' and e.name == 'update' and e.recv == mac for x in e.args]
            kt = elem if not (elem and elem[0] == 'tuple') else elem[1]
            vt = ('item', md, elem) if not (elem and elem[0] == 'tuple') else elem[2]
            kts = [kt, ('item', elem, const(0))]
            vts = [vt, ('item', elem, const(1))]
            if not any(mention(u, k) and not any(mention(u, v) for v in vts) for u in upd for k in kts):
                sviol(ctx, 'mac', fi, eng, o, 'does not cover the name of a metadata entry', 'name')
                break
            # the value, or a tag for the values of singleton types
            kind = [e.recv[2] for e in seg if e.kind == 'if' and e.recv[0] == 'isinst' and e.recv[1] in vts and e.res is True]
            isn = [e for e in seg if e.kind == 'if' and e.recv[0] == 'isnone' and e.recv[1] in vts and e.res is True]
            tv = [e.res for e in seg if e.kind == 'if' and e.recv[0] == 'true' and e.recv[1] in vts]
            vu = [u for u in upd if any(mention(u, v) for v in vts)]
            tu = [x for u in upd for x in flat_add(u)[:1] if is_const(x) and isinstance(cval(x), bytes) and cval(x)]
            if isn or kind and 'bool' in show(kind[0]):
                name = 'None' if isn else 'bool %s' % (tv[-1] if tv else '')
                if not tu or not isn and not tv:
                    sviol(ctx, 'mac', fi, eng, o, 'does not cover the value of a metadata entry (%s)' % name, 'value')
                    break
            else:
                name = show(kind[0]) if kind else '?'
                if not vu or not tu:
                    sviol(ctx, 'mac', fi, eng, o, 'does not cover the value of a metadata entry or its type (%s)' % name, 'value')
                    break
            tags.setdefault(name, set()).add(cval(tu[0]))
            ctx.ok('mac', 'value of type %s' % name)
    allt = [t for s in tags.values() for t in s]
    if len(allt) != len(set(allt)):
        sviol(ctx, 'mac', fi, eng, None, 'values of different types are covered with the same tag: ' + ', '.join(
            '%s: %s' % (k, sorted(v)) for k, v in sorted(tags.items())), 'tags')


def encrypt_rules(ctx):
    '''The writer's code covers every packet.'''
    fi = ctx.repo.func(CP + '.encrypt_fh')
    ps = fi.params()
    ifh, ofh, key = (('param', p, fi.qual) for p in ps[:3])
    eng, outs = ctx.run(fi, LocalPolicy(), TraceMonitor())
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        macs = [e.res for i, e in tr.calls('new') if e.qual == 'hmac.new' and kwarg(e, 0, 'key') == key]
        cips = [e.res for i, e in tr.calls('aes_encryptor') if kwarg(e, 0, 'key') == key]
        if not macs or not cips:
            sviol(ctx, 'stream', fi, eng, o, 'does not encrypt or authenticate under the given key', 'keys')
            continue
        fed, out, bad = [], [], None
        for e in tr.ev:
            if e.kind == 'call' and e.name == 'update' and e.recv == macs[0]:
                fed += list(e.args)
            if e.kind == 'call' and e.name == 'update' and e.recv == cips[0]:
                out += list(e.args)
            if e.kind == 'call' and e.name == 'write' and e.recv == ofh:
                for a in e.args:
                    if not (is_res(a, 'update') and cips[0] in res_args(a)):
                        bad = 'writes bytes that were not encrypted'
        body = [x for x in out if not is_res(x, 'digest')]
        from collections import Counter

        if Counter(body) != Counter(fed):
            bad = bad or 'the authentication code does not cover exactly what is stored'
        if not out or not is_res(out[-1], 'digest') or macs[0] not in res_args(out[-1]):
            bad = bad or 'the authentication code is not the last thing that is stored'
        reads = [e.res for i, e in tr.calls('read') if tr.val(('true', e.res)) is not False]
        if any(r not in body for r in reads):
            bad = bad or 'does not store what it read'
        term = [x for x in body if is_res(x, 'pack') and const(0) in res_args(x)]
        if not bad and (len(body) < 1 or not term or body[-1] not in term):
            bad = 'does not store the terminating packet'
        if bad:
            sviol(ctx, 'stream', fi, eng, o, bad, 'stream')
        else:
            ctx.ok('stream', 'encrypt_fh')


@check('S02', explanation='''Path analysis of the writer of stored objects: on every path with a passphrase the data handed to the storage
backend is the output of the encryption, the nonce contains the time of this call and the object name (or random bytes), the keys for data
and metadata are the digests the reader computes and differ by a tag, and the signature is computed over the mapping that is stored after
its last entry was added. The code itself covers the name, type and value of every entry but the signature.''')
def s02(ctx):
    ctx.meta_tags = set()
    ctx.rule('all-encrypted', 'with a passphrase only encrypted data and metadata are handed to the storage backend')
    ctx.rule('fresh-nonce', 'the nonce of an object is unique')
    ctx.rule('keys', 'reader and writer derive the keys in the same way, and the two keys differ')
    ctx.rule('covers', 'the signature is computed last, over everything that is stored')
    ctx.rule('mac', 'the code over a mapping covers the name, type and value of every entry')
    ctx.rule('stream', 'the code of the data covers every packet')
    writer_rules(ctx)
    reader_keys(ctx)
    reader_rules_keys_only(ctx)
    checksum_rules(ctx)
    encrypt_rules(ctx)
    for r in ('all-encrypted', 'fresh-nonce', 'covers', 'mac', 'stream'):
        ctx.floor(r)
    ctx.floor('keys', 2)


def reader_rules_keys_only(ctx):
    fi = ctx.repo.func(CB + '.readinto_fh')
    eng, outs = ctx.run(fi, LocalPolicy(), TraceMonitor())
    for o in outs:
        for e in o.st.auto:
            if e.kind == 'call' and e.name in ('decrypt_fh', '_decompress_sync'):
                for x in list(e.args) + [v for k, v in e.kw]:
                    p = key_parts(x)
                    if p is not None:
                        if len(p) != 2 or not any(is_pass(y) for y in p):
                            sviol(ctx, 'keys', fi, eng, o, 'derives the data key in another way than the writer', 'derivation')
                        else:
                            ctx.ok('keys', 'readinto_fh')


# -------------------------------------------------------------------------------------------
# S03

PAIRS = {
    'zlib.compressobj': 'zlib.decompressobj',
    'bz2.BZ2Compressor': 'bz2.BZ2Decompressor',
    'lzma.LZMACompressor': 'lzma.LZMADecompressor',
}
TOKENS = {'none': 'None', 'zlib': 'ZLIB', 'bzip2': 'BZIP2', 'lzma': 'LZMA'}


def members(repo, name):
    ci = repo.cls(name)
    out = {}
    for n in ci.node.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Constant):
            out[n.targets[0].id] = n.value.value
    return out


def module_value(m, name):
    for n in m.tree.body:
        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
            return n.value
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
            return n.value
    return None


def enum_table(node, flip=False):
    '''{member: constant} of a dictionary display over an enumeration, None if it is something else.'''
    if not isinstance(node, ast.Dict):
        return None
    out = {}
    for k, v in zip(node.keys, node.values):
        if flip:
            k, v = v, k
        if not isinstance(k, ast.Attribute) or not isinstance(v, ast.Constant):
            return None
        out[k.attr] = v.value
    return out


def inverted(node, name):
    '''Is the expression {v: k for k, v in NAME.items()}?'''
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'dict' and len(node.args) == 1:
        node = node.args[0]
        if isinstance(node, (ast.GeneratorExp, ast.ListComp)) and isinstance(node.elt, ast.Tuple):
            key, val, g = node.elt.elts[0], node.elt.elts[1], node.generators[0]
        else:
            return False
    elif isinstance(node, ast.DictComp):
        key, val, g = node.key, node.value, node.generators[0]
    else:
        return False
    return (isinstance(g.target, ast.Tuple) and [ast.dump(x) for x in g.target.elts][::1] and not g.ifs and
            isinstance(key, ast.Name) and isinstance(val, ast.Name) and isinstance(g.target.elts[0], ast.Name) and
            key.id == g.target.elts[1].id and val.id == g.target.elts[0].id and isinstance(g.iter, ast.Call) and
            isinstance(g.iter.func, ast.Attribute) and g.iter.func.attr == 'items' and isinstance(g.iter.func.value, ast.Name) and
            g.iter.func.value.id == name)


def token_rules(ctx):
    repo = ctx.repo
    m = repo.module(CP)
    mem = members(repo, 's3ql.authinfo.CompressAlgorithm')
    fi = repo.func(CB + '._compress_sync')
    w = enum_table(module_value(m, '_METADATA_TOKEN'))
    rv = module_value(m, '_ALGORITHM_BY_TOKEN')
    if w is None:
        ctx.violate('tokens', 'missing', 'the table of tokens that are written (_METADATA_TOKEN) was not found', fi.loc())
        return
    if set(w) != set(mem):
        ctx.violate('tokens', '_METADATA_TOKEN', 'the compression algorithms %s have no token' % sorted(set(mem) ^ set(w)), fi.loc())
    r = enum_table(rv, True)
    if not inverted(rv, '_METADATA_TOKEN') and r != w:
        ctx.violate('tokens', '_ALGORITHM_BY_TOKEN', 'the reader does not map every written token back to its algorithm', fi.loc())
    for a, t in w.items():
        want = TOKENS.get(mem.get(a))
        if want is not None and t != want:
            ctx.violate('tokens', a, 'the token of %s is %r, but stored objects have %r' % (a, t, want), fi.loc())
        else:
            ctx.ok('tokens', '%s = %s' % (a, t))
    if len(set(w.values())) != len(w):
        ctx.violate('tokens', 'duplicate', 'two algorithms have the same token', fi.loc())


def decided_alg(tr, term_ok, mem):
    '''The algorithm a path was decided for: value, or None.'''
    for a, v in tr.facts():
        if a[0] in ('eq', 'is') and v:
            for x, y in (a[1:], a[1:][::-1]):
                if is_const(x) and cval(x) in mem and term_ok(y):
                    return cval(x)
    ruled = {cval(x) for a, v in tr.facts() if a[0] in ('eq', 'is') and not v for x in a[1:] if is_const(x) and cval(x) in mem}
    left = set(mem) - ruled
    if not left:
        return False            # no such algorithm
    return left.pop() if len(left) == 1 else None


def positioned(tr, i, fh):
    '''Was the file rewound after it was last written, before position i?'''
    last_w = -1
    for j, e in enumerate(tr.ev[:i]):
        if e.kind == 'call' and e.recv != fh and e.name in ('compress_fh', 'encrypt_fh', 'decrypt_fh', 'copyfh', 'readinto_fh') and \
                len(e.args) > 1 and e.args[1] == fh:
            last_w = j
    if last_w < 0:
        return True
    return any(e.kind == 'call' and e.name == 'seek' and e.recv == fh and e.args for e in tr.ev[last_w:i])


def pipeline_rules(ctx):
    repo = ctx.repo
    mem = set(members(repo, 's3ql.authinfo.CompressAlgorithm').values())
    fi = repo.func(CB + '._compress_sync')
    ps = fi.params()
    fh0, len0 = ('param', ps[2], fi.qual), ('param', ps[3], fi.qual)
    eng, outs = ctx.run(fi, LocalPolicy(), TraceMonitor())
    wr = {}
    enc_names = set()
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        sends = [(i, e) for i, e in tr.calls('write_fh', 'store') if is_attr(e.recv, 'backend')]
        if not sends:
            continue
        si, send = sends[-1]
        body = kwarg(send, 1, 'fh')
        comp = [(i, e) for i, e in tr.calls('compress_fh', upto=si)]
        enc = [(i, e) for i, e in tr.calls('encrypt_fh', upto=si)]
        md = [x for x in send.args if x[0] == 'obj' or is_res(x, 'dict') or x[0] == 'new' and last(x[1]) == 'dict']
        vals = {cval(k): v for k, v, i in dict_items(tr, md[-1], si) if is_const(k)} if md else {}
        if 'encryption' in vals and is_const(vals['encryption']):
            enc_names.add(cval(vals['encryption']))
        tok = vals.get('compression')
        alg_term = tok[2] if tok and tok[0] == 'item' else None
        if is_const(alg_term or NONE) and cval(alg_term) in mem:
            alg = cval(alg_term)
        else:
            alg = decided_alg(tr, lambda t: t == alg_term or alg_term is None, mem)
            if alg is False:
                continue
        if tok is not None and is_const(tok):
            alg = {v: k for k, v in TOKENS.items()}.get(cval(tok))
        creators = [e for i, e in tr.calls('compressobj', 'BZ2Compressor', 'LZMACompressor')]
        if not comp:
            if alg is not None and alg != 'none':
                sviol(ctx, 'inverse', fi, eng, o, 'marks the object as compressed with %s but does not compress it' % alg, 'not ' + alg)
                continue
            ctx.ok('inverse', 'writer: uncompressed')
            if not enc:
                bounced = [e for i, e in tr.calls('copyfh', upto=si) if kwarg(e, 1, 'ofh') == body and kwarg(e, 2, 'len_') == len0]
                if body == fh0:
                    at0 = [v for a, v in tr.facts() if a[0] in ('eq', 'is') and const(0) in a[1:] and any(is_res(x, 'tell') for x in a[1:])]
                    full = [v for a, v in tr.facts() if a[0] in ('eq', 'is') and len0 in a[1:] and any(is_res(x, 'fh_size') for x in a[1:])]
                    at0 += [not v for a, v in tr.facts() if a[0] == 'true' and is_res(a[1], 'tell')]
                    if True not in at0 or True not in full:
                        sviol(ctx, 'extent', fi, eng, o, 'stores the whole file although only a part of it was to be stored', 'part')
                    else:
                        ctx.ok('extent', 'writer: plain')
                elif not bounced:
                    sviol(ctx, 'extent', fi, eng, o, 'does not store the requested part of the file', 'bounce')
                else:
                    ctx.ok('extent', 'writer: bounce buffer')
                if not positioned(tr, si, body):
                    sviol(ctx, 'rewound', fi, eng, o, 'stores a buffer from its end', 'store')
        else:
            ci, ce = comp[-1]
            cname = creators[-1].qual if creators else '?'
            if creators and kwarg(ce, 2, 'compr') != creators[-1].res:
                cname = '?'
            if alg is None or alg == 'none' or wr.setdefault(alg, cname) != cname:
                sviol(ctx, 'inverse', fi, eng, o, 'marks the object as %s but compresses it with %s' % (alg, cname), 'mark %s' % alg)
                continue
            if kwarg(ce, 0, 'ifh') != fh0 or kwarg(ce, 3, 'len_') != len0:
                sviol(ctx, 'extent', fi, eng, o, 'does not compress exactly the requested part of the file', 'compress')
                continue
            nxt = kwarg(enc[-1][1], 0, 'ifh') if enc else body
            ni = enc[-1][0] if enc else si
            if nxt != kwarg(ce, 1, 'ofh') or enc and enc[-1][0] < ci:
                sviol(ctx, 'inverse', fi, eng, o, 'does not store what it compressed (or encrypts before compressing)', 'order')
                continue
            if not positioned(tr, ni, nxt):
                sviol(ctx, 'rewound', fi, eng, o, 'continues with a buffer at its end', 'compress')
                continue
            ctx.ok('inverse', 'writer: %s with %s' % (alg, cname))
            ctx.ok('extent', 'writer: compressed')
        if enc:
            ee = enc[-1][1]
            ln = kwarg(ee, 3, 'len_')
            src = kwarg(ee, 0, 'ifh')
            if src == fh0 and ln != len0:
                sviol(ctx, 'extent', fi, eng, o, 'does not encrypt exactly the requested part of the file', 'encrypt')
            elif src != fh0 and ln is not None and ln != NONE and not is_res(ln, 'tell', 'fh_size'):
                sviol(ctx, 'extent', fi, eng, o, 'encrypts only part of the compressed data', 'encrypt part')
            elif not positioned(tr, si, body):
                sviol(ctx, 'rewound', fi, eng, o, 'stores a buffer from its end', 'store')
            else:
                ctx.ok('rewound', 'writer')
    # reader
    fi = repo.func(CB + '._decompress_sync')
    ps = fi.params()
    algp = ('param', ps[1], fi.qual)
    ofh = ('param', ps[4], fi.qual)
    eng, outs = ctx.run(fi, LocalPolicy(), TraceMonitor())
    rd = {}
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        alg = decided_alg(tr, lambda t: t == algp, mem)
        if alg is False:
            continue
        de = [e for i, e in tr.calls('decompress_fh')]
        cr = [e for i, e in tr.calls('decompressobj', 'BZ2Decompressor', 'LZMADecompressor')]
        if not de or not cr or kwarg(de[-1], 2, 'decompressor') != cr[-1].res or kwarg(de[-1], 1, 'ofh') != ofh:
            sviol(ctx, 'inverse', fi, eng, o, 'does not decompress into the destination', 'reader')
            continue
        di = [i for i, e in tr.calls('decompress_fh')][-1]
        if not positioned(tr, di, kwarg(de[-1], 0, 'ifh')):
            sviol(ctx, 'rewound', fi, eng, o, 'decompresses a buffer from its end', 'reader')
            continue
        rd[alg] = cr[-1].qual
        ctx.ok('rewound', 'reader')
    for alg, c in sorted(wr.items()):
        if PAIRS.get(c) != rd.get(alg):
            ctx.violate('inverse', alg, 'objects compressed with %s (%s) are decompressed with %s' % (alg, c, rd.get(alg)), fi.loc())
        else:
            ctx.ok('inverse', '%s: %s / %s' % (alg, c, rd[alg]))
    if set(wr) != mem - {'none'}:
        ctx.violate('inverse', 'missing', 'the writer does not produce %s' % sorted(mem - {'none'} - set(wr)), fi.loc())
    # encryption types and position in the reader
    fi = repo.func(CB + '.readinto_fh')
    eng, outs = ctx.run(fi, LocalPolicy(), TraceMonitor())
    accepted = set()
    for o in outs:
        tr = Trace(o)
        if o.kind != 'return':
            continue
        for a, v in tr.facts():
            if v and a[0] in ('eq', 'is', 'in') and any(x[0] == 'item' and x[2] == const('encryption') or is_res(x, 'get') and const(
                    'encryption') in res_args(x) for x in a[1:] if isinstance(x, tuple) and len(x) > 2):
                for x in a[1:]:
                    accepted |= {cval(y) for y in subterms(x) if is_const(y) and isinstance(cval(y), str)}
                    if is_const(x) and isinstance(cval(x), (tuple, frozenset)):
                        accepted |= set(cval(x))
        src = [(i, e) for i, e in enumerate(tr.ev) if e.kind == 'call' and e.name in ('decrypt_fh', 'copyfh', '_decompress_sync')]
        for i, e in src:
            f = kwarg(e, 0, 'ifh') if e.name != '_decompress_sync' else kwarg(e, 2, 'ifh')
            dl = [x for j, x in tr.calls('readinto_fh', upto=i) if is_attr(x.recv, 'backend')]
            if not dl or kwarg(dl[-1], 1, 'fh') != f:
                sviol(ctx, 'rewound', fi, eng, o, 'uses something other than the received data', 'source')
            elif not positioned(tr, i, f):
                sviol(ctx, 'rewound', fi, eng, o, 'reads the received data from its end', 'position')
            else:
                ctx.ok('rewound', 'readinto_fh')
                alg = decided_alg(tr, lambda t: True, mem)
                if (e.name == '_decompress_sync') != (alg != 'none') and alg is not None:
                    sviol(ctx, 'inverse', fi, eng, o, 'does not decompress an object compressed with %s' % alg, 'reader ' + alg)
    for n in sorted(enc_names):
        if n not in accepted:
            ctx.violate('tokens', 'encryption %s' % n, 'the reader does not accept the encryption type %r that is written' % n, fi.loc())
        else:
            ctx.ok('tokens', 'encryption %s' % n)


def stream_rules(ctx):
    fi = ctx.repo.func(CP + '.decompress_fh')
    ps = fi.params()
    ifh, ofh, de = (('param', p, fi.qual) for p in ps[:3])
    eng, outs = ctx.run(fi, LocalPolicy(), TraceMonitor())
    for o in outs:
        tr = Trace(o)
        if o.kind != 'return':
            continue
        eof = tr.val(('true', ('attr', de, 'eof')))
        un = tr.val(('true', ('attr', de, 'unused_data')))
        if un is None:
            un = next((not v for a, v in tr.facts() if a[0] == 'eq' and const(b'') in a[1:] and ('attr', de, 'unused_data') in a[1:]), None)
        if eof is not True:
            sviol(ctx, 'truncation', fi, eng, o, 'accepts a compressed stream that ends early', 'eof')
            continue
        if un is not False:
            sviol(ctx, 'truncation', fi, eng, o, 'accepts data behind the end of the compressed stream', 'unused')
            continue
        last_chk = max(i for i, e in enumerate(tr.ev) if e.kind == 'if' and e.recv[0] == 'true' and is_attr(e.recv[1], 'eof'))
        reads = [i for i, e in tr.calls('read') if e.recv == ifh]
        if reads and max(reads) > last_chk:
            pass
        if not reads or tr.val(('true', tr.ev[reads[-1]].res)) is not False and not any(
                a[0] == 'eq' and const(b'') in a[1:] and v for a, v in tr.facts()):
            sviol(ctx, 'truncation', fi, eng, o, 'stops before the end of the stored data was reached', 'rest')
            continue
        ok = True
        for i, e in tr.calls('decompress_buf', 'decompress'):
            out = tr.val(('true', e.res))
            if out is not False and not any(x.kind == 'call' and x.name == 'write' and x.recv == ofh and e.res in x.args for x in tr.ev[i:]):
                sviol(ctx, 'complete-copy', fi, eng, o, 'drops decompressed data', 'drop')
                ok = False
                break
        if ok:
            ctx.ok('truncation', 'decompress_fh')
            ctx.ok('complete-copy', 'decompress_fh')
    for name, prim in (('compress_fh', 'compress'), ('s3ql.common.copyfh', None)):
        fi = ctx.repo.func(name if '.' in name else CP + '.' + name)
        ps = fi.params()
        ifh, ofh = (('param', p, fi.qual) for p in ps[:2])
        eng, outs = ctx.run(fi, LocalPolicy(), TraceMonitor())
        for o in outs:
            tr = Trace(o)
            if o.kind != 'return':
                continue
            ln = ('param', next((p for p in ps if p.startswith('len')), 'len_'), fi.qual)
            bad = None
            pend = None
            # a write that is itself lost counts for nothing
            for i, e in enumerate(tr.ev):
                if e.kind == 'call' and e.name == 'read' and e.recv == ifh:
                    if pend is not None:
                        bad = 'drops data it read'
                    pend = e.res
                elif e.kind == 'if' and e.recv == ('true', pend) and e.res is False:
                    pend = None
                elif e.kind == 'call' and pend is not None and pend in e.args:
                    if prim is None and e.name == 'write' and e.recv == ofh:
                        pend = None
                    elif prim and e.name == prim:
                        r = e.res
                        if tr.val(('true', r)) is not False and not any(x.kind == 'call' and x.name == 'write' and r in x.args
                                                                       for x in tr.ev[i:]):
                            bad = 'drops compressed data'
                        pend = None
            if pend is not None:
                bad = bad or 'drops data it read'
            if prim:
                fl = [e for i, e in tr.calls('flush') if e.recv != ofh]
                if not fl:
                    bad = bad or 'does not flush the compressor'
                elif tr.val(('true', fl[-1].res)) is not False and not any(
                        x.kind == 'call' and x.name == 'write' and fl[-1].res in x.args for x in tr.ev):
                    bad = bad or 'drops the end of the compressed data'
            if bad:
                sviol(ctx, 'complete-copy', fi, eng, o, bad, 'copy')
            else:
                ctx.ok('complete-copy', fi.short)
            # what bounds the number of bytes
            if tr.isnone(ln) is False:
                for i, e in tr.calls('read'):
                    if e.recv == ifh and e.args and not mention(e.args[0], ln):
                        sviol(ctx, 'extent', fi, eng, o, 'reads more than the requested number of bytes', 'bound')


HDR_CLASSES = ('s3ql.backends.s3c.AsyncBackend', 's3ql.backends.swift.AsyncBackend')


def hdr_parts(t):
    '''(template without the number, prefix, number) of a header name.'''
    if t and t[0] == 'fmt':
        args = list(t[2])
        pre = args[0] if args else None
        num = args[1] if len(args) > 1 else None
        return t[1], pre, num
    if t and t[0] == 'pure' and t[1] == 'Add':
        return '{}' + ''.join(cval(x) for x in t[2] if is_const(x)), next((x for x in t[2] if not is_const(x)), None), None
    return None, None, None


def header_rules(ctx):
    for c in HDR_CLASSES:
        fi = ctx.repo.func(c + '._add_meta_headers')
        ps = fi.params()
        hd, md = (('param', p, fi.qual) for p in ps[1:3])
        eng, outs = ctx.run(fi, LocalPolicy(), TraceMonitor())
        wnames = set()
        wfmt = None
        for o in outs:
            if o.kind != 'return':
                continue
            tr = Trace(o)
            sets = [e for e in tr.ev if e.kind == 'setitem' and e.recv == hd]
            num = 0
            bad = None
            for e in sets:
                t, pre, n = hdr_parts(e.args[0])
                wnames.add(t)
                if not is_attr(pre, 'hdr_prefix'):
                    bad = 'uses another prefix than the reader'
                v = e.args[1]
                if n is not None:
                    if n != const(num):
                        bad = 'numbers the headers with a gap or twice, so that the reader loses the rest'
                    num += 1
                    q = [x for x in subterms(v) if is_res(x, 'quote')]
                    if not q:
                        bad = bad or 'does not quote the value'
                        continue
                    src = res_args(q[0])[0]
                    if not (src and src[0] == 'fmt' and src[1] == '{}: {},' and len(src[2]) == 2):
                        bad = bad or 'does not write entries as "key: value,"'
                        continue
                    kk, vv = src[2]
                    k0 = kk[2][0] if kk[0] == 'pure' and kk[1] == 'repr' else None
                    v0 = vv[2][0] if vv[0] == 'pure' and vv[1] == 'repr' else None
                    if k0 is None or v0 is None:
                        bad = bad or 'does not write literals'
                        continue
                    val = res_args(v0)[0] if is_res(v0, 'b64encode') else v0
                    isb = tr.dec(lambda a: a[0] == 'isinst' and a[1] == val and 'bytes' in show(a[2]) and 'str' not in show(a[2]) and
                                 'int' not in show(a[2]))
                    if isb and isb[-1] != is_res(v0, 'b64encode') or not isb:
                        bad = bad or 'does not encode exactly the byte strings'
                elif t and t.endswith('format'):
                    wfmt = v
                elif t and t.endswith('md5'):
                    ca = [x for x in subterms(v) if is_res(x, 'checksum_basic_mapping')]
                    if not ca or md not in res_args(ca[0]):
                        bad = bad or 'does not store the checksum of the metadata'
            # every slice is stored
            sl = [e.args[1] for e in sets if e.args[1][0] == 'pure' and e.args[1][1] == 'slice']
            groups = []
            for s in sl:
                if s[2][1] == const(0) or s[2][1][0] == 'pure' and const(0) in s[2][1][2]:
                    groups.append([])
                if groups:
                    groups[-1].append(s)
            for g in groups:
                for x, y in zip(g, g[1:]):
                    if x[2][2] != y[2][1]:
                        bad = bad or 'splits a value with a gap'
            if sl and not groups:
                bad = bad or 'does not start with the beginning of the value'
            nent = len([e for e in tr.ev if e.kind == 'iter'])
            if nent and not sets:
                bad = bad or 'drops entries'
            for i, e in enumerate(tr.ev):
                if e.kind == 'iter':
                    nx = next((j for j in range(i + 1, len(tr.ev)) if tr.ev[j].kind in ('iter', 'loopexit')), len(tr.ev))
                    quoted = [x for x in tr.ev[i:nx] if x.kind == 'call' and x.name == 'quote']
                    stored = [x for x in tr.ev[i:nx] if x.kind == 'setitem' and x.recv == hd]
                    small = [a for a, v in [(x.recv, x.res) for x in tr.ev[i:nx] if x.kind == 'if'] if a[0] == 'lt' and v]
                    empty = any(x.kind == 'if' and x.recv[0] == 'lt' and not x.res and any(
                        y == ('pure', 'Mult', (const(0), ('param', 'chunksize', fi.qual))) for y in subterms(x.recv))
                        for x in tr.ev[i:nx])
                    if not stored and not empty:
                        bad = bad or 'drops an entry'
                    del quoted, small
            for e in tr.ev:
                if e.kind == 'call' and e.name == 'quote':
                    safe = kwarg(e, 1, 'safe')
                    s = cval(safe) if safe is not None and is_const(safe) else None
                    if safe is None:
                        s = '/'
                    if s is None or '%' in s or ' ' in s or '\n' in s:
                        bad = bad or 'leaves characters in header values that do not survive transmission (% or white space)'
            if bad:
                sviol(ctx, 'metadata', fi, eng, o, bad, bad)
            else:
                ctx.ok('metadata', fi.short)
        fr = ctx.repo.func(c + '._extractmeta')
        eng, outs = ctx.run(fr, LocalPolicy(), TraceMonitor())
        rnames = set()
        n = 0
        for o in outs:
            tr = Trace(o)
            for e in tr.ev:
                if e.kind in ('call', 'getitem') and e.name in ('get', '__getitem__') and e.args and is_attr(e.recv, 'headers'):
                    t, pre, num = hdr_parts(e.args[0])
                    if t is None:
                        continue
                    rnames.add(t)
                    if not is_attr(pre, 'hdr_prefix'):
                        sviol(ctx, 'metadata', fr, eng, o, 'reads headers with another prefix than the writer', 'prefix')
                    if num is not None and not (num[0] == 'elem' or is_const(num)):
                        sviol(ctx, 'metadata', fr, eng, o, 'does not read the headers in order', 'number')
            if o.kind != 'return':
                continue
            n += 1
            f = [x for a, v in tr.facts() if a[0] in ('eq', 'is') and v for x in a[1:] if is_const(x) and isinstance(cval(x), str)]
            if wfmt is not None and wfmt not in f:
                sviol(ctx, 'metadata', fr, eng, o, 'accepts another metadata format than the one that is written (%s)' % show(wfmt), 'format')
            th = [e for i, e in tr.calls('thaw_basic_mapping')]
            if not th or not any(is_res(x, 'unquote') for x in subterms(th[-1].args[0])) or not any(
                    is_const(x) and cval(x) == '{ {} }' or x[0] == 'fmt' and x[1].replace(' ', '') in ('{{}}', '{{{}}}')
                    for x in subterms(th[-1].args[0])):
                sviol(ctx, 'metadata', fr, eng, o, 'does not restore the metadata from the unquoted headers', 'thaw')
            elif o.val != th[-1].res:
                sviol(ctx, 'metadata', fr, eng, o, 'does not return the restored metadata', 'result')
            else:
                ctx.ok('metadata', fr.short)
        if wnames != rnames:
            ctx.violate('metadata', c, 'writer and reader use different headers: %s' % sorted(map(str, wnames ^ rnames)), fr.loc())
        if not n:
            ctx.violate('metadata', 'missing ' + c, 'the reader returns no metadata', fr.loc())


def gs_meta_rules(ctx):
    fi = ctx.repo.func('s3ql.backends.gs._wrap_user_meta')
    eng, outs = ctx.run(fi, LocalPolicy(), TraceMonitor())
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        sets = [e for e in tr.ev if e.kind == 'setitem']
        its = [e for e in tr.ev if e.kind == 'iter']
        bad = None
        if len(sets) < len(its):
            bad = 'drops entries'
        for e in sets:
            v = e.args[1]
            v0 = v[2][0] if v[0] == 'pure' and v[1] == 'repr' else None
            if v0 is None:
                bad = 'does not write literals'
                continue
            val = res_args(v0)[0] if is_res(v0, 'b64encode') else v0
            isb = tr.dec(lambda a: a[0] == 'isinst' and a[1] == val and 'bytes' in show(a[2]) and 'int' not in show(a[2]))
            if not isb or isb[-1] != is_res(v0, 'b64encode'):
                bad = 'does not encode exactly the byte strings'
        if bad:
            sviol(ctx, 'metadata', fi, eng, o, bad, bad)
        else:
            ctx.ok('metadata', fi.short)
    fi = ctx.repo.func('s3ql.backends.gs._unwrap_user_meta')
    eng, outs = ctx.run(fi, LocalPolicy(), TraceMonitor())
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        if is_res(o.val, 'thaw_basic_mapping'):
            continue
        bad = None
        for e in tr.ev:
            if e.kind == 'setitem':
                v = e.args[1]
                lit = res_args(v)[0] if is_res(v, 'b64decode') else v
                if not is_res(lit, 'literal_eval'):
                    bad = 'does not parse the stored literal'
                    continue
                isb = tr.dec(lambda a: a[0] == 'isinst' and a[1] == lit and 'bytes' in show(a[2]))
                if not isb or isb[-1] != is_res(v, 'b64decode'):
                    bad = 'does not decode exactly the byte strings'
        if bad:
            sviol(ctx, 'metadata', fi, eng, o, bad, bad)
        else:
            ctx.ok('metadata', fi.short)


def frozen_rules(ctx):
    fi = ctx.repo.func('s3ql.common.freeze_basic_mapping')
    eng, outs = ctx.run(fi, LocalPolicy(), TraceMonitor())
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        bad = None
        its = [i for i, e in enumerate(tr.ev) if e.kind == 'iter'] + [len(tr.ev)]
        for a, b in zip(its, its[1:]):
            seg = tr.ev[a:b]
            isb = [e.res for e in seg if e.kind == 'if' and e.recv[0] == 'isinst' and 'bytes' in show(e.recv[2]) and 'int' not in show(
                e.recv[2])]
            enc = [e.res for e in seg if e.kind == 'call' and e.name == 'b64encode']
            app = [e for e in seg if e.kind == 'call' and e.name == 'append'] + [e for e in seg if e.kind == 'setitem']
            if not app:
                bad = 'drops an entry'
            elif bool(enc) != bool(isb and isb[-1]) or enc and not any(mention(x, enc[-1]) for x in app[-1].args):
                bad = 'does not encode exactly the byte strings'
        if bad:
            sviol(ctx, 'metadata', fi, eng, o, bad, bad)
        else:
            ctx.ok('metadata', fi.short)
    fi = ctx.repo.func('s3ql.common.thaw_basic_mapping')
    eng, outs = ctx.run(fi, LocalPolicy(), TraceMonitor())
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        bad = None
        its = [i for i, e in enumerate(tr.ev) if e.kind == 'iter'] + [len(tr.ev)]
        for a, b in zip(its, its[1:]):
            seg = tr.ev[a:b]
            isb = [e.res for e in seg if e.kind == 'if' and e.recv[0] == 'isinst' and 'bytes' in show(e.recv[2])]
            dec = [e.res for e in seg if e.kind == 'call' and e.name == 'b64decode']
            st = [e for e in seg if e.kind == 'setitem' and dec and e.args[1] == dec[-1]]
            if bool(dec) != bool(isb and isb[-1]) or dec and not st:
                bad = 'does not decode exactly the byte strings'
        if bad:
            sviol(ctx, 'metadata', fi, eng, o, bad, bad)
        else:
            ctx.ok('metadata', fi.short)


def local_format(ctx):
    import struct as struct_

    fi = ctx.repo.func('s3ql.backends.local.AsyncBackend.write_fh')
    eng, outs = ctx.run(fi, LocalPolicy(), TraceMonitor())
    magic = fmt = None
    n = 0
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        cp = [(i, e) for i, e in tr.calls('copyfh')]
        if not cp:
            continue
        dest = kwarg(cp[-1][1], 1, 'ofh')
        w = []
        for i, e in tr.calls('write', upto=cp[-1][0]):
            if e.recv == dest:
                w += flat_add(e.args[0])
        c = [x for x in w if is_const(x) and isinstance(cval(x), bytes)]
        p = [x for x in w if is_res(x, 'pack')]
        fz = [x for x in w if is_res(x, 'freeze_basic_mapping')]
        if len(w) != 3 or not c or not p or not fz or len([e for i, e in tr.calls('write') if e.recv == dest]) == 3 and w != [c[0], p[0], fz[0]]:
            sviol(ctx, 'metadata', fi, eng, o, 'does not write the header, the length and the metadata before the data', 'layout')
            continue
        pa = res_args(p[0])
        if not (len(pa) == 2 and is_const(pa[0]) and pa[1] == ('pure', 'len', (fz[0],))):
            sviol(ctx, 'metadata', fi, eng, o, 'does not store the length of the metadata', 'length')
            continue
        magic, fmt = cval(c[0]), cval(pa[0])
        n += 1
    if magic is None:
        ctx.floor('metadata', 10 ** 6)
        return
    fmt = fmt.decode() if isinstance(fmt, bytes) else fmt
    fr = ctx.repo.func('s3ql.backends.local._read_meta')
    eng, outs = ctx.run(fr, LocalPolicy(), TraceMonitor())
    for o in outs:
        if o.kind != 'return':
            continue
        tr = Trace(o)
        rd = [e for i, e in tr.calls('read')]
        up = [e for i, e in tr.calls('unpack', 'unpack_from')]
        sw = [v for a, v in tr.facts() if v and (a[0] == 'true' and is_res(a[1], 'startswith') and const(magic) in res_args(a[1]) or a[0] ==
              'eq' and const(magic) in a[1:])]
        ok = len(rd) >= 2 and up and sw and rd[0].args and rd[0].args[0] == const(len(magic) + struct_.calcsize(fmt))
        uf = up[0].args[0] if up else NONE
        uf = cval(uf) if is_const(uf) else None
        uf = uf.decode() if isinstance(uf, bytes) else uf
        ok = ok and uf == fmt and is_res(o.val, 'thaw_basic_mapping') and mention(o.val, rd[-1].res) and mention(rd[-1].args[0], up[0].res)
        if not ok:
            sviol(ctx, 'metadata', fr, eng, o, 'does not read the header that write_fh produces', 'layout')
        else:
            ctx.ok('metadata', fr.short)


@check('S03', explanation='''The writing and the reading side are extracted from the source and compared: the tables of compression and
encryption tokens, the (de)compressor created on the paths of each algorithm, the order of the steps and the position of every buffer handed
from one to the next; the names, numbering, quoting and literal syntax of metadata headers of each storage backend, and the layout of local
objects. Copy loops must pass on everything they read.''')
def s03(ctx):
    ctx.rule('tokens', 'every compression and encryption token that is written is recognized by the reader')
    ctx.rule('inverse', 'reader and writer use matching algorithms in inverse order')
    ctx.rule('extent', 'exactly the requested part of a file is stored')
    ctx.rule('rewound', 'every buffer is read from its beginning')
    ctx.rule('truncation', 'a truncated compressed stream or one followed by other data is rejected')
    ctx.rule('complete-copy', 'copy loops pass on everything they read')
    ctx.rule('metadata', 'metadata written by a storage backend is restored by the same backend')
    token_rules(ctx)
    pipeline_rules(ctx)
    stream_rules(ctx)
    header_rules(ctx)
    gs_meta_rules(ctx)
    frozen_rules(ctx)
    local_format(ctx)
    for r in ctx.rules:
        ctx.floor(r)


# -------------------------------------------------------------------------------------------
# S04

LITERAL = ('builtins.ValueError', 'builtins.SyntaxError', 'builtins.TypeError', 'builtins.MemoryError', 'builtins.RecursionError')
FAULTS = {
    'literal_eval': LITERAL,
    'thaw_basic_mapping': ('s3ql.common.ThawError',),
    'b64decode': ('binascii.Error',),
    'a85decode': ('builtins.ValueError',),
    'unhexlify': ('binascii.Error',),
    'checksum_basic_mapping': ('builtins.ValueError',),
    'loads': ('builtins.ValueError',),
    'fromisoformat': ('builtins.ValueError',),
    'decrypt_fh': (CORRUPT,),
    'decompress_fh': (CORRUPT,),
    'decompress_buf': (CORRUPT,),
    '_decompress_sync': (CORRUPT,),
    '_verify_meta': (CORRUPT, CP + '.ObjectNotEncrypted'),
    '_extractmeta': (CORRUPT, 's3ql.backends.s3c.BadDigestError', 's3ql.backends.swift.BadDigestError'),
    '_unwrap_user_meta': (CORRUPT,),
}
REPORTED = {'CorruptedObjectError', 'BadDigestError', 'ObjectNotEncrypted', 'ThawError'}


class MalformedPolicy(LocalPolicy):
    '''Everything that can fail because of the content of a stored object fails.'''

    max_states = 8000

    def inline(self, fi, eng):
        return fi.name == '_read_meta' or super().inline(fi, eng)

    def raises(self, ev, eng):
        if ev.kind == 'getitem':
            return ()
        n = ev.name
        if n in FAULTS:
            return FAULTS[n]
        if n == 'decode' and not is_res(ev.recv, 'b64encode', 'hexlify'):
            return ('builtins.UnicodeDecodeError',)
        if n == 'encode' and not (isinstance(ev.recv, tuple) and ev.recv and ev.recv[0] == 'param'):
            return ('builtins.UnicodeEncodeError',)
        if n == 'decompress':
            return ('builtins.OSError', 'lzma.LZMAError', 'zlib.error', 'builtins.EOFError')
        if n in ('int', 'float') and ev.qual.startswith('builtins.'):
            return ('builtins.ValueError', 'builtins.TypeError')
        return ()


HARMLESS_USE = {'isinstance', 'type', 'repr', 'str', 'format', 'CorruptedObjectError', 'BadDigestError', 'ThawError', 'len', 'bool', 'get',
                'pop', 'append', 'join', 'sorted', 'all', 'any', 'dict', 'list', 'keys', 'values', 'items', '__getitem__', 'debug',
                'info', 'warning', 'error', 'literal_eval'}


def literal_consts(t):
    return [cval(x) for x in subterms(t) if is_const(x)]


def malformed_rules(ctx, qual, roots, given=(), allow=(), typed=True):
    '''*roots(tr, fi)*: the untrusted mappings of a path; *given*: keys known to be present.'''
    fi = ctx.repo.func(qual)
    eng, outs = ctx.run(fi, MalformedPolicy(), TraceMonitor())
    established = None
    for o in outs:
        tr = Trace(o)
        if any(a[0] == 'isnone' and is_res(a[1], 'sha256') and v for a, v in tr.facts()):
            continue
        if o.kind == 'raise':
            x = (exc_name(o) or '').rpartition('.')[2]
            if x == 'AssertionError':
                cond = [a for a, v in tr.facts()][-1:]
                if cond and any(is_pass(t) for t in subterms(cond[0])):
                    continue
            if x not in REPORTED | set(allow):
                sviol(ctx, 'reported', fi, eng, o, 'a malformed object causes %s instead of the error for corrupted objects' % (x or 'an '
                      'unknown error'), x or 'any')
                continue
            if x == 'ThawError' and 'ThawError' not in allow:
                sviol(ctx, 'reported', fi, eng, o, 'metadata that cannot be parsed causes a ThawError instead of the error for corrupted '
                      'objects', x)
                continue
            ctx.ok('reported', '%s: %s' % (fi.short, x))
        for m in roots(tr, fi):
            seen = set(given)
            ok_types = set()
            isdict = m[0] != 'param' or fi.name != '_verify_meta'
            for e in tr.ev:
                if e.kind == 'if':
                    a, v = e.recv, e.res
                    if a[0] == 'in' and a[2] == m and is_const(a[1]) and v:
                        seen.add(cval(a[1]))
                    if a[0] == 'in' and a[2] != m and typed:
                        bad_use(ctx, fi, eng, o, a[1], m, ok_types, 'in')
                    if a[0] == 'isinst' and v:
                        ok_types.add(a[1])
                        if a[1] == m:
                            isdict = True
                    if a[0] == 'lt' and typed:
                        for t in a[1:]:
                            bad_use(ctx, fi, eng, o, t, m, ok_types, 'comparison')
                    continue
                if e.kind == 'getitem' and e.recv == m and e.args and is_const(e.args[0]):
                    if cval(e.args[0]) not in seen:
                        sviol(ctx, 'present', fi, eng, o, 'uses the metadata entry %s without knowing that it exists (KeyError)' %
                              show(e.args[0]), show(e.args[0]))
                    else:
                        ctx.ok('present', '%s: %s' % (fi.short, show(e.args[0])))
                    continue
                if e.kind == 'call' and typed and e.name not in HARMLESS_USE:
                    if not isdict and m in e.args:
                        sviol(ctx, 'typed', fi, eng, o, 'uses metadata before it was checked to be a mapping', 'mapping')
                    for t in list(e.args) + [v for k, v in e.kw] + ([e.recv] if e.recv else []):
                        bad_use(ctx, fi, eng, o, t, m, ok_types, e.name)
            if o.kind == 'return':
                established = seen if established is None else established & seen
        for i, e in tr.calls('unpack', 'unpack_from'):
            size_rule(ctx, fi, eng, o, tr, i, e)
    return established or set()


def size_rule(ctx, fi, eng, o, tr, i, e):
    import struct as struct_

    f, b = e.args[0], e.args[1] if len(e.args) > 1 else NONE
    fm = cval(f) if is_const(f) else None
    try:
        n = struct_.calcsize(fm)
    except (TypeError, struct_.error):
        n = None
    ln = ('pure', 'len', (b,))
    ok = False
    for a, v in tr.facts(i):
        if a[0] == 'eq' and v and ln in a[1:]:
            x = a[2] if a[1] == ln else a[1]
            ok = ok or is_res(x, 'calcsize') or x == const(n)
        if a[0] == 'true' and v and is_res(a[1], 'startswith') and b[0] == 'pure' and b[1] == 'slice':
            ra = res_args(a[1])
            if ra and ra[0] == b[2][0] and n is not None and b[2][1] == const(-n) and any(
                    is_const(x) and isinstance(cval(x), bytes) and len(cval(x)) >= n for x in ra[1:]):
                ok = True
    if ok:
        ctx.ok('sized', fi.short)
    else:
        sviol(ctx, 'sized', fi, eng, o, 'unpacks bytes of a stored object without knowing their number (struct.error)', 'unpack')


def bad_use(ctx, fi, eng, o, t, m, ok_types, use):
    '''An operation on an entry of unknown type.'''
    for x in subterms(t):
        if not isinstance(x, tuple) or len(x) < 3:
            continue
        ent = x[0] == 'item' and x[1] == m or is_res(x, 'get', 'pop') and res_args(x)[:1] == (m,)
        if not ent or x in ok_types:
            continue
        key = x[2] if x[0] == 'item' else res_args(x)[1] if len(res_args(x)) > 1 else NONE
        sviol(ctx, 'typed', fi, eng, o, 'uses the metadata entry %s in %s without checking its type' % (show(key), use), show(key))
        return
    if t[0] in ('pure', 'item', 'res') or t in ok_types:
        ctx.ok('typed', None)


UNSAFE = {'eval', 'exec', 'pickle.load', 'pickle.loads', 'pickle.Unpickler', 'marshal.load', 'marshal.loads', 'shelve.open', 'yaml.load',
          'yaml.unsafe_load', 'yaml.full_load', 'dill.load', 'dill.loads', 'cPickle.loads', 'cPickle.load', '_pickle.loads', '_pickle.load',
          'jsonpickle.decode', 'numpy.load', 'joblib.load', 'builtins.eval', 'builtins.exec', 'pandas.read_pickle', 'cloudpickle.loads',
          'cloudpickle.load', 'runpy.run_path'}


def safe_parsers(ctx):
    for m in ctx.repo.modules.values():
        bound = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    bound[(a.asname or a.name).split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                for a in n.names:
                    bound[a.asname or a.name] = n.module + '.' + a.name
        cnt = 0
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load):
                parts = []
                x = n
                while isinstance(x, ast.Attribute):
                    parts.append(x.attr)
                    x = x.value
                if not isinstance(x, ast.Name):
                    continue
                q = '.'.join([bound.get(x.id, x.id)] + parts[::-1])
                cnt += 1
                if q in UNSAFE:
                    ctx.violate('safe-parser', '%s: %s' % (m.name, q), '%s evaluates or unpickles data' % q, '%s:%d' % (m.path, n.lineno)
                                if hasattr(m, 'path') else m.name)
        ctx.ok('safe-parser', m.name)


@check('S04', explanation='''Path analysis with a failure model of malformed content: every operation whose outcome depends on the bytes of
a stored object (parsing literals, decoding text and base64, decompression, authentication, unpacking) can raise what the library documents
for malformed input. Every exception that leaves the functions that read stored objects must be one of those that report corruption; entries
of untrusted mappings are used only when their presence and type was checked on the path, bytes are unpacked only when their number is
known. No code of the package evaluates or unpickles data.''')
def s04(ctx):
    ctx.rule('reported', 'malformed objects are reported through the corrupted-object or transfer errors')
    ctx.rule('present', 'entries of stored metadata are used only when they exist')
    ctx.rule('typed', 'entries of stored metadata are used only after their type was checked')
    ctx.rule('sized', 'bytes of stored objects are unpacked only if their number is known')
    ctx.rule('safe-parser', 'data is never evaluated or unpickled')

    def param(i):
        return lambda tr, fi: [('param', fi.params()[i], fi.qual)]

    def none(tr, fi):
        return []

    est = malformed_rules(ctx, CB + '._verify_meta', param(2))

    def raw(tr, fi):
        out = []
        for i, e in tr.calls('_verify_meta'):
            m = kwarg(e, 1, 'metadata')
            if m is not None:
                out.append(m)
            out.append(('item', e.res, const(1)))
        return out

    malformed_rules(ctx, CB + '.readinto_fh', raw, given=est)
    malformed_rules(ctx, CB + '.lookup', raw, given=est)
    malformed_rules(ctx, CB + '._decompress_sync', none, allow=('RuntimeError',))
    for f in ('decrypt_fh', 'decompress_fh', 'decompress_buf'):
        malformed_rules(ctx, CP + '.' + f, none)
    malformed_rules(ctx, 's3ql.common.thaw_basic_mapping', none, allow=('ThawError',))
    for q in ('s3ql.backends.s3c.AsyncBackend._extractmeta', 's3ql.backends.swift.AsyncBackend._extractmeta',
              's3ql.backends.b2ng.AsyncBackend._extractmeta', 's3ql.backends.gs._unwrap_user_meta'):
        malformed_rules(ctx, q, none)
    for f in ('lookup', 'readinto_fh'):
        malformed_rules(ctx, 's3ql.backends.local.AsyncBackend.' + f, none, allow=('NoSuchObject',))
    safe_parsers(ctx)
    for r in ctx.rules:
        ctx.floor(r)
    ctx.floor('safe-parser', 20)

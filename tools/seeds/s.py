C = 'src/s3ql/backends/comprenc.py'
S3 = 'src/s3ql/backends/s3c.py'
S4 = 'src/s3ql/backends/s3c4.py'
SW = 'src/s3ql/backends/swift.py'
L = 'src/s3ql/backends/local.py'
H = 'src/s3ql/http.py'
CO = 'src/s3ql/backends/common.py'
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed('s01-truncated-code', 'S01', [(C, '''    if not hmac.compare_digest(buf, hmac_.digest()):
        raise CorruptedObjectError('HMAC mismatch')
''', '''    if not hmac.compare_digest(buf, hmac_.digest()[: len(buf)]):
        raise CorruptedObjectError('HMAC mismatch')
''')], 'the stored data is changed and its authentication code cut off', 'the changed data is returned as valid', '''
from s3srv import *
import io
from s3ql.backends import comprenc

key = b'k' * 32
out = io.BytesIO()
comprenc.encrypt_fh(io.BytesIO(b'a' * 1000), out, key)
buf = bytearray(out.getvalue())
buf[100] ^= 1
for cut in (len(buf), len(buf) - 1, len(buf) - 31, len(buf) - 32):
    try:
        comprenc.decrypt_fh(io.BytesIO(bytes(buf[:cut])), io.BytesIO(), key)
    except CorruptedObjectError:
        continue
    raise AssertionError('changed data accepted (%d bytes cut off)' % (len(buf) - cut))
''')

seed('s01-name-prefix', 'S01', [(C, '''        if stored_key != key:
            raise CorruptedObjectError(
''', '''        if not stored_key.startswith(key):
            raise CorruptedObjectError(
''')], 'an object is replaced with one whose name starts with the same characters (s3ql_data_1, s3ql_data_12)',
     'the other object is accepted', '''
from s3srv import *
from s3ql.authinfo import CompressAlgorithm, CompressSpec

async def main():
    with server() as s:
        async with backend(s) as raw:
            b = await AsyncComprencBackend.create(b'secret', CompressSpec(CompressAlgorithm.ZLIB, 6), raw)
            await b.store('s3ql_data_1', b'one')
            await b.store('s3ql_data_12', b'twelve')
            s.objects['s3ql_data_1'] = s.objects['s3ql_data_12']
            for op in (b.fetch, b.lookup):
                try:
                    print(await op('s3ql_data_1'))
                except CorruptedObjectError:
                    continue
                raise AssertionError('accepted the content of another object')

run(main)
''')

seed('s02-shared-nonce', 'S02', [(C, '''            nonce = struct.pack('<d', time.time()) + key.encode('utf-8')
''', '''            nonce = struct.pack('<d', time.time()) + key.encode('utf-8')[:12]
''')], 'two objects are stored in the same instant', 'both are encrypted with the same key stream', '''
from s3srv import *
import time
from s3ql.authinfo import CompressAlgorithm, CompressSpec

async def main():
    with server() as s:
        async with backend(s) as raw:
            b = await AsyncComprencBackend.create(b'secret', CompressSpec(CompressAlgorithm.NONE, 0), raw)
            real = time.time
            now = real()
            time.time = lambda: now
            try:
                await b.store('s3ql_data_1001', b'\\0' * 64)
                await b.store('s3ql_data_1002', b'\\0' * 64)
            finally:
                time.time = real
            one, two = s.objects["s3ql_data_1001"][0], s.objects["s3ql_data_1002"][0]
            assert one[4:68] != two[4:68], 'same key stream'

run(main)
''')

seed('s05-composite-checksum', 'S05', [(S3, '''                    if etag != md5_hex:
                        raise BadDigestError(
''', '''                    if etag != md5_hex and len(etag) == len(md5_hex):
                        raise BadDigestError(
''')], 'the checksum that the server reports for an upload has lost a character or is empty', 'a damaged upload is taken as stored', '''
from s3srv import *

def hook(h):
    if h.command == 'PUT' and h.server.bad:
        h.server.bad -= 1
        h.body = h.body[:-1]
        h.server.objects[h.key] = (h.body, {})
        h.reply(200, b'', {'ETag': '""'})
        return True

async def main():
    with server(hook) as s:
        s.bad = 1
        async with backend(s) as b:
            await b.store('k', b'data')
            assert s.objects['k'][0] == b'data', s.objects['k']

run(main)
''')

seed('s06-too-many-requests', 'S06', [(SW, '''            (500 <= exc.status <= 599 and exc.status not in (501, 505, 508, 510, 511, 523))
            or exc.status in (408, 429)
            or 'client disconnected' in exc.msg.lower()
''', '''            (500 <= exc.status <= 599 and exc.status not in (501, 505, 508, 510, 511, 523))
            or exc.status == 408
            or 'client disconnected' in exc.msg.lower()
''')], 'a Swift server asks the client to slow down', 'the operation fails instead of being repeated', '''
from s3srv import *
from s3ql.backends import swift

b = swift.AsyncBackend(storage_url='swift://host/container/', backend_options={})
for status, temp in ((408, True), (429, True), (500, True), (503, True), (400, False), (403, False), (501, False)):
    assert b.is_temp_failure(swift.HTTPError(status, 'msg', {})) is temp, status
''')

seed('s07-failed-key-dropped', 'S07', [(L, '''            except:
                del keys[:i]
                raise
            if log_progress:
                log_delete_progress(i + 1, total)
''', '''            except:
                del keys[: i + 1]
                raise
            if log_progress:
                log_delete_progress(i + 1, total)
''')], 'deleting one of several objects fails', 'the object that could not be deleted is missing from the list of the remaining ones', '''
from s3srv import *
import tempfile
from s3ql.backends import local

async def main():
    with tempfile.TemporaryDirectory() as d:
        b = await local.AsyncBackend.create(storage_url='local://' + d, backend_options={})
        for i in range(4):
            await b.store('k%d' % i, b'')
        os.rename(d + '/k2', d + '/other')
        os.mkdir(d + '/k2')  # cannot be unlinked
        keys = ['k0', 'k1', 'k2', 'k3']
        try:
            await b.delete_multi(keys)
        except OSError:
            pass
        assert 'k2' in keys and 'k0' not in keys, keys

run(main)
''')

seed('s12-signed-once', 'S12', [(S4, '''        if self.signing_key is None or self.signing_key[1] != ymd:
            self.update_signing_key(ymd)
''', '''        if self.signing_key is None or self.signing_key[1] > ymd:
            self.update_signing_key(ymd)
''')], 'a request is made on the day after the first one', 'it is signed with the key of the day before', '''
from s3srv import *
import time
from s3ql.backends import s3c4
from s3ql.http import CaseInsensitiveDict

def sign(b, t):
    real = time.gmtime
    time.gmtime = lambda *a: real(t)
    try:
        h = CaseInsensitiveDict({'host': 'host'})
        b._authorize_request('GET', '/bucket/key', h, None, None)
    finally:
        time.gmtime = real
    return h['Authorization']

def new():
    return s3c4.AsyncBackend(storage_url='s3c4://host/bucket/', backend_options={'sig-region': 'r'}, backend_login='l', backend_password='p')

t = 1700000000
b = new()
sign(b, t)
assert sign(b, t + 86400) == sign(new(), t + 86400)
''')

seed('s13-late-rejection', 'S13', [(SW, '''        if self._pool is None:
            async with self._auth_lock:
                if self._pool is None:
                    log.debug('no active pool, authenticating')
''', '''        if self._pool is None:
            async with self._auth_lock:
                if self.auth_token is None or self._pool is None:
                    log.debug('no active pool, authenticating')
'''), (SW, '''                    auth = await self._authenticate()
                    self.auth_token = auth.token
                    self.auth_prefix = auth.prefix
                    self.features = await self._detect_features(
                        auth.storage_host, auth.storage_port, auth.ssl_context
                    )
                    self._pool = Pool(
                        auth.storage_host,
                        port=auth.storage_port,
                        ssl_context=auth.ssl_context,
                        proxy=get_proxy(auth.ssl_context is not None),
                        max_connections=self._max_connections,
                        timeout=int(self.options.get('tcp-timeout', 20)),
                    )
''', '''                    auth = await self._authenticate()
                    self._pool = Pool(
                        auth.storage_host,
                        port=auth.storage_port,
                        ssl_context=auth.ssl_context,
                        proxy=get_proxy(auth.ssl_context is not None),
                        max_connections=self._max_connections,
                        timeout=int(self.options.get('tcp-timeout', 20)),
                    )
                    self.auth_token = auth.token
                    self.auth_prefix = auth.prefix
                    self.features = await self._detect_features(
                        auth.storage_host, auth.storage_port, auth.ssl_context
                    )
''')], 'a second request starts while the first is still finding out what the server supports',
     'the second request uses the new pool before the renewal is complete', '''
from s3srv import *
from s3ql.backends import swift

async def main():
    b = swift.AsyncBackend(storage_url='swift://localhost:1/container/', backend_options={'no-ssl': True})
    detected = []
    async def auth():
        await trio.sleep(0.01)
        return swift._AuthResult(storage_host='localhost', storage_port=1, ssl_context=None, token='t', prefix='/p')
    async def detect(*a):
        await trio.sleep(0.1)
        detected.append(True)
        return swift.Features()
    b._authenticate = auth
    b._detect_features = detect
    seen = []
    async def use(delay):
        await trio.sleep(delay)
        async with b._borrow_conn():
            seen.append(bool(detected))
    async with trio.open_nursery() as n:
        n.start_soon(use, 0)
        n.start_soon(use, 0.05)
    assert all(seen), seen

run(main)
''')


G = 'src/s3ql/backends/gs.py'
CM = 'src/s3ql/common.py'

seed('s06-download-appends', 'S06', [(SW, '''        return await self._readinto_fh(key, fh, fh.tell())
''', '''        return await self._readinto_fh(key, fh, fh.tell() or None)
'''), (SW, '''    async def _readinto_fh(self, key: str, fh: BinaryOutput, off: int):
''', '''    async def _readinto_fh(self, key: str, fh: BinaryOutput, off: int | None):
'''), (SW, '''            md5 = hashlib.md5()
            fh.seek(off)
''', '''            md5 = hashlib.md5()
            if off:
                fh.seek(off)
''')], 'a download from Swift into an empty file is interrupted after part of the data', 'the repeated download is appended to the first part', """
from s3srv import *
import io, hashlib
from s3ql.backends import swift
from s3ql.http import CaseInsensitiveDict

def hook(h):
    if h.path == '/v1.0':
        h.reply(200, headers={'X-Auth-Token': 't', 'X-Storage-Url': 'http://127.0.0.1:%d/x' % h.server.server_address[1]})
    elif h.command == 'GET' and h.path.endswith('/k'):
        body = b'0123456789'
        meta = {'ETag': hashlib.md5(body).hexdigest(), **h.server.meta}
        if h.server.bad:
            h.server.bad -= 1
            h.reply(200, body[:5], meta, length=len(body))
            h.close_connection = True
        else:
            h.reply(200, body, meta)
    else:
        h.reply(200, b'[]', {'Content-Type': 'application/json; charset=utf-8'})
    return True

async def main():
    with server(hook) as s:
        b = await swift.AsyncBackend.create(storage_url='swift://127.0.0.1:%d/container/' % s.server_address[1],
            backend_options={'no-ssl': True, 'no-feature-detection': True, 'tcp-timeout': '5'}, backend_login='l', backend_password='p')
        s.meta = CaseInsensitiveDict()
        b._add_meta_headers(s.meta, {'a': 1})
        for off in (3, 0):
            s.bad = 1
            fh = io.BytesIO(b'x' * off)
            fh.seek(off)
            await b.readinto_fh('k', fh)
            assert fh.getvalue() == b'x' * off + b'0123456789', fh.getvalue()
        await b.close()

run(main)
""")

seed('s07-page-of-temporary-objects', 'S07', [(SW, '''        for dataset in json.loads(body.decode(hit.group(1))):
            count += 1
            name = dataset['name']
            last_name = name
            if name.endswith(TEMP_SUFFIX):
                continue
            names.append(name)
''', '''        for dataset in json.loads(body.decode(hit.group(1))):
            name = dataset['name']
            last_name = name
            if name.endswith(TEMP_SUFFIX):
                continue
            count += 1
            names.append(name)
''')], 'a full page of a Swift listing contains a temporary object', 'the remaining objects are missing from the listing', """
from s3srv import *
import json
from s3ql.backends import swift

def hook(h):
    if h.path == '/v1.0':
        h.reply(200, headers={'X-Auth-Token': 't', 'X-Storage-Url': 'http://127.0.0.1:%d/x' % h.server.server_address[1]})
        return True
    q = dict(urllib.parse.parse_qsl(h.path.partition('?')[2]))
    names = [x for x in h.server.names if x > q.get('marker', '') and x.startswith(q.get('prefix', ''))][:int(q.get('limit', 10000))]
    h.reply(200, json.dumps([{'name': x} for x in names]).encode(), {'Content-Type': 'application/json; charset=utf-8'})
    return True

async def main():
    with server(hook) as s:
        s.names = ['k%05d' % i for i in range(2500)]
        s.names[10] += swift.TEMP_SUFFIX
        b = await swift.AsyncBackend.create(storage_url='swift://127.0.0.1:%d/container/' % s.server_address[1],
            backend_options={'no-ssl': True, 'no-feature-detection': True, 'tcp-timeout': '5'}, backend_login='l', backend_password='p')
        l = [x async for x in b.list()]
        assert l == [x for x in s.names if not x.endswith(swift.TEMP_SUFFIX)], len(l)
        await b.close()

run(main)
""")

seed('s07-lost-failure', 'S07', [(SW, '''            resp_status_code in (400, 404)
            and len(resp_dict['Errors']) == 0
            and resp_dict['Number Not Found'] > 0
''', '''            resp_status_code in (400, 404)
            and resp_dict['Number Not Found'] >= len(resp_dict['Errors'])
''')], 'some of the objects to delete do not exist and others cannot be deleted', 'the objects that still exist are reported as deleted', """
from s3srv import *
import json
from s3ql.backends import swift

def hook(h):
    if h.path == '/v1.0':
        h.reply(200, headers={'X-Auth-Token': 't', 'X-Storage-Url': 'http://127.0.0.1:%d/x' % h.server.server_address[1]})
    elif h.command == 'POST':
        h.reply(200, json.dumps({'Number Not Found': 1, 'Response Status': '400 Bad Request', 'Response Body': '',
            'Errors': [['/container/b', '403 Forbidden']], 'Number Deleted': 1}).encode(), {'Content-Type': 'application/json'})
    else:
        h.reply(200, b'[]', {'Content-Type': 'application/json; charset=utf-8'})
    return True

async def main():
    with server(hook) as s:
        b = await swift.AsyncBackend.create(storage_url='swift://127.0.0.1:%d/container/' % s.server_address[1],
            backend_options={'no-ssl': True, 'no-feature-detection': True, 'tcp-timeout': '5'}, backend_login='l', backend_password='p')
        keys = ['a', 'b', 'c']
        try:
            await b._delete_multi(keys)
        except Exception:
            pass
        else:
            raise AssertionError('failure lost')
        assert keys == ['b'], keys
        await b.close()

run(main)
""")

seed('s08-storage-url-without-scheme', 'S08', [(SW, '''                elif o.scheme == 'http':
                    ssl_context = None
                else:
                    # fall through to scheme used for authentication
                    pass
''', '''                else:
                    ssl_context = None
''')], 'the authentication server names the storage server without a scheme', 'the token and all data are sent unencrypted', """
from s3srv import *
from s3ql.backends import swift
import email.message

class Resp:
    status = 200
    headers = email.message.Message()
Resp.headers['X-Auth-Token'] = 't'
Resp.headers['X-Storage-Url'] = '//storage.example.com/v1/x'

class Conn:
    def __init__(self, *a, **kw): pass
    async def __aenter__(self): return self
    async def __aexit__(self, *a): return False
    async def send_request(self, *a, **kw): return Resp

async def main():
    swift.HTTPConnection = Conn
    b = swift.AsyncBackend(storage_url='swift://host/container/', backend_options={})
    assert (await b._authenticate()).ssl_context is not None
    b = swift.AsyncBackend(storage_url='swift://host/container/', backend_options={'no-ssl': True})
    assert (await b._authenticate()).ssl_context is None

run(main)
""")

seed('s10-token-in-log', 'S10', [(SW, '''        headers['X-Auth-Token'] = auth_token

        resp = await conn.send_request(
''', '''        headers['X-Auth-Token'] = auth_token
        log.debug('sending %s %s (%s)', method, path, ', '.join('%s: %s' % x for x in headers.items()))

        resp = await conn.send_request(
''')], 'debug messages are enabled', 'the access token is written to the log', """
from s3srv import *
import io, logging
from s3ql.backends import swift

class Resp:
    status = 200

class Conn:
    async def send_request(self, *a, **kw): return Resp

async def main():
    out = io.StringIO()
    logging.getLogger().addHandler(logging.StreamHandler(out))
    logging.getLogger().setLevel(logging.DEBUG)
    logging.getLogger('s3ql').setLevel(logging.DEBUG)
    b = swift.AsyncBackend(storage_url='swift://host/container/', backend_options={}, backend_login='l', backend_password='pw-secret')
    b.auth_token, b.auth_prefix = 'token-secret', '/p'
    await b._do_request(Conn(), 'GET', '/k')
    assert 'secret' not in out.getvalue(), out.getvalue()

run(main)
""")

seed('s11-unescaped', 'S11', [(L, '''    s = s.replace('=', '=3D')
    s = s.replace('/', '=2F')
''', '''    s = s.replace('/', '=2F')
    s = re.sub('=(?!2F)', '=3D', s)
'''), (L, '''import os
import struct
''', '''import os
import re
import struct
''')], 'a key contains the text that a slash is replaced with', 'two keys share one path', """
from s3srv import *
import tempfile
from s3ql.backends import local

async def main():
    with tempfile.TemporaryDirectory() as d:
        b = await local.AsyncBackend.create(storage_url='local://' + d, backend_options={}, max_connections=4)
        await b.store('a/b', b'1')
        await b.store('a=2Fb', b'2')
        assert (await b.fetch('a/b'))[0] == b'1'
        assert sorted([x async for x in b.list()]) == ['a/b', 'a=2Fb']

run(main)
""")

seed('s12-port-not-signed', 'S12', [(S4, '''        # Headers
        sig_hdrs = sorted(x.lower() for x in headers)
''', '''        # Headers
        sig_hdrs = sorted(x.lower() for x in headers if not x.lower().startswith('x-amz-meta-'))
''')], 'an object is stored with metadata', 'the metadata is not covered by the signature', """
from s3srv import *
from s3ql.backends import s3c4
from s3ql.http import CaseInsensitiveDict

b = s3c4.AsyncBackend(storage_url='s3c4://host/bucket/', backend_options={'sig-region': 'r'}, backend_login='l', backend_password='p')
h = CaseInsensitiveDict({'host': 'host', 'x-amz-meta-000': 'v'})
b._authorize_request('PUT', '/bucket/key', h, None, None)
assert 'x-amz-meta-000' in h['Authorization'], h['Authorization']
""")
